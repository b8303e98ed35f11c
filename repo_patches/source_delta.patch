From be46058675067b2eee374791c72d1521f246d8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 01/22] fix: accept ticks in the hour repeated when clocks are
 set back

Datetimes in the same timezone are compared by wall time, so that a whole
hour of ticks was rejected as anterior to the last received tick.
---
 estrade/epic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index b5cf6d0..e035378 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -242,7 +242,8 @@ class Epic(RefMixin):
         """
         # set tick timezone
         tick.datetime = tick.datetime.to(self.timezone)
-        if tick.datetime < self.last_tick.datetime:
+        # compare instants: wall times are ambiguous when clocks are set back
+        if tick.datetime_utc < self.last_tick.datetime_utc:
             raise EpicException(
                 "Cannot handle a tick anterior to the last received tick."
             )
-- 
2.43.0


From dc506ae23f45451f77f1ca236ea8f46afaf10f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:33 +0000
Subject: [PATCH 02/22] fix: do not update trades of other epics sharing the
 same trade provider

---
 estrade/epic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index e035378..d0cf649 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -209,7 +209,9 @@ class Epic(RefMixin):
 
     def _update_open_trades(self, new_tick: "Tick") -> None:
         for trade in self.trade_provider.opened_trades:
-            trade.update_from_tick(new_tick)
+            # a trade provider can be shared between epics
+            if trade.epic is self:
+                trade.update_from_tick(new_tick)
 
     def _execute_strategies(self, market_open_before_new_tick: bool) -> None:
         for _, strategy in self.strategies.items():
-- 
2.43.0


From ff617a5ac838b4752ca735c2579269d03a29561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 03/22] fix: start a new tick-count frame on day change

Frame sets compare a new tick with the last one received by their epic, which
had already been replaced by the new tick.
---
 estrade/epic.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index d0cf649..834918a 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -176,28 +176,32 @@ class Epic(RefMixin):
         logger.debug("Tick is in Market hours")
         return True
 
-    def is_market_open(self) -> bool:
+    def is_market_open(self, tick: Optional["Tick"] = None) -> bool:
         """
         Check if the market is currently opened.
 
-        This method compare the last received tick datetime to the current instance
+        This method compare a tick datetime to the current instance
         `open_time` and `close_time`.
 
+        Arguments:
+            tick: tick to check (default to the last received tick)
+
         Returns:
             - `None` when the epic contains no Tick
-            - `True` if the last received tick datetime
+            - `True` if the tick datetime
                 - datetime is between `open_time` and `close_time`
                 - day is not a holiday
                 - weekday is a trade_days
             - `False` in other cases
         """
-        if not self._in_market_hours(self.last_tick.datetime.time()):
+        tick = tick or self.last_tick
+        if not self._in_market_hours(tick.datetime.time()):
             logger.debug("Tick is not in Market hours")
             return False
-        elif self.last_tick.datetime.weekday() not in self.trade_days:
+        elif tick.datetime.weekday() not in self.trade_days:
             logger.debug("Tick is not in a valid weekday")
             return False
-        elif self.last_tick.datetime.date() in self.holidays:
+        elif tick.datetime.date() in self.holidays:
             logger.debug("Tick is not in a holiday")
             return False
 
@@ -250,13 +254,15 @@ class Epic(RefMixin):
                 "Cannot handle a tick anterior to the last received tick."
             )
 
-        # update last tick
-        self.last_tick = tick
         market_open_before_new_tick = self.market_open
-        self.market_open = self.is_market_open()
+        self.market_open = self.is_market_open(tick)
 
+        # frame sets compare the new tick with the last received one
         self._update_frame_sets(tick)
 
+        # update last tick
+        self.last_tick = tick
+
         self._update_open_trades(tick)
 
         self._execute_strategies(market_open_before_new_tick)
-- 
2.43.0


From 3077993d3c801b9a178a2f8160cb09a73ca984c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:08 +0000
Subject: [PATCH 04/22] fix: stop closing opposite trades once the new trade is
 fully netted

The next opposite trade was closed with a zero quantity, which stands for all
of its opened quantities.
---
 estrade/trade_provider.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index dc3c60a..923a904 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -184,6 +184,8 @@ class TradeProviderBacktests(BaseTradeProvider):
                 self.close_trade(trade_close=trade_close)
 
                 trade.open_quantity -= quantities_to_close
+                if trade.open_quantity <= 0:
+                    break
 
         # if after decrement, the trade to open has a zero quantity, stop
         if trade.open_quantity <= 0:
-- 
2.43.0


From ba25b6673bc4bd8b89407985b52213a236f9bb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:12 +0000
Subject: [PATCH 05/22] fix: do not net trades opened on different epics in
 backtests

---
 estrade/trade.py          | 12 ++++++++++++
 estrade/trade_provider.py |  4 +++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/estrade/trade.py b/estrade/trade.py
index fbe1114..0fc1f6b 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -309,6 +309,18 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
         """
         return self.open_quantity - self.closed_quantities
 
+    def on_same_epic(self, trade: "Trade") -> bool:
+        """
+        Check if another trade is opened on the same epic.
+
+        Arguments:
+            trade: trade to compare to.
+
+        return:
+            `True` if both trades are opened on the same epic.
+        """
+        return self.epic is trade.epic
+
     @property
     def closed(self) -> bool:
         """
diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index 923a904..c921a84 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -164,7 +164,9 @@ class TradeProviderBacktests(BaseTradeProvider):
         )
 
         for open_trade in self.opened_trades:
-            if open_trade.direction == opposite_direction:
+            if open_trade.direction == opposite_direction and open_trade.on_same_epic(
+                trade
+            ):
                 logger.info(
                     "A trade was opened when another is still open in "
                     "the opposite direction."
-- 
2.43.0


From 41108d1a0aa709a5572cf50fe085ada099ef0328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 06/22] fix: reset min and max results of a trade partially
 netted in backtests

---
 estrade/trade_provider.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index c921a84..88ee9d8 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -186,6 +186,9 @@ class TradeProviderBacktests(BaseTradeProvider):
                 self.close_trade(trade_close=trade_close)
 
                 trade.open_quantity -= quantities_to_close
+                # min/max results were set with the quantity before decrement
+                trade.max_result = trade.result
+                trade.min_result = trade.result
                 if trade.open_quantity <= 0:
                     break
 
-- 
2.43.0


From 71e0a78bbff0ad9299ff286f88fefece80fa73db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 07/22] fix: value a trade opened while its close value is zero

---
 estrade/trade.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/estrade/trade.py b/estrade/trade.py
index 0fc1f6b..437c870 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -75,7 +75,9 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
         self.closes: List[TradeClose] = []
 
         self.open_value = open_value
-        self.current_close_value = current_close_value or open_value
+        self.current_close_value = (
+            open_value if current_close_value is None else current_close_value
+        )
 
         self.max_result: float = self.result
         self.min_result: float = self.result
-- 
2.43.0


From e49ed20d658f8c087b137a1dad67ce87bd9703e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 08/22] fix: write rows of a report added to an existing file

Two reports in the same second share their files, the rows of the second one
were silently lost.
---
 estrade/reporting/csv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estrade/reporting/csv.py b/estrade/reporting/csv.py
index b133b0d..d9aa42a 100644
--- a/estrade/reporting/csv.py
+++ b/estrade/reporting/csv.py
@@ -34,8 +34,8 @@ class CSVWriter:
             writer = csv.DictWriter(f, fieldnames=headers)
             if not file_exists:
                 writer.writeheader()
-                for d in dict_list:
-                    writer.writerow(d)
+            for d in dict_list:
+                writer.writerow(d)
 
 
 class ReportingCSV:
-- 
2.43.0


From 9f5efa84e3824af36bbe65f10ed16010a569dd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:20 +0000
Subject: [PATCH 09/22] fix: keep Heikin Ashi open values when older frames
 leave the memory

The open value of the oldest frame kept in memory was recalculated from its
first tick, which changed all the following candles.
---
 estrade/graph/indicators/candle_set.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/estrade/graph/indicators/candle_set.py b/estrade/graph/indicators/candle_set.py
index 5d178e2..a8d969d 100644
--- a/estrade/graph/indicators/candle_set.py
+++ b/estrade/graph/indicators/candle_set.py
@@ -26,6 +26,11 @@ class BaseCandle(BaseIndicatorValue):
             frame: parent frame
         """
         BaseIndicatorValue.__init__(self, *args, **kwargs)
+        self._inherited_open = self._get_inherited_open()
+
+    def _get_inherited_open(self) -> Optional[float]:
+        """Return the open value set by the previous candle (if any)."""
+        return None
 
     @property
     def open(self) -> float:
@@ -223,6 +228,14 @@ class HeikinAshiCandle(BaseCandle):
         frame (estrade.graph.frame_set.Frame): Parent frame.
     """
 
+    def _get_inherited_open(self) -> Optional[float]:
+        # the previous candle is closed: its values are kept here as it does not stay
+        # in memory as long as this instance.
+        previous = self.previous
+        if previous is None:
+            return None
+        return round((previous.open + previous.last) / 2, 2)  # type: ignore
+
     @property
     def open(self) -> float:
         """
@@ -233,9 +246,9 @@ class HeikinAshiCandle(BaseCandle):
             this function returns the mean between the previous candle open and
             last value.
         """
-        if not self.previous:
+        if self._inherited_open is None:
             return round(self.first_tick.value, 2)
-        return round((self.previous.open + self.previous.last) / 2, 2)  # type: ignore
+        return self._inherited_open
 
     @property
     def high(self) -> float:
-- 
2.43.0


From c2c1dff909363bfc265dc80e0c995b898e011cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:23 +0000
Subject: [PATCH 10/22] fix: keep frames aligned and contiguous across clock
 changes

Seconds and minutes frames mixed both occurrences of the hour repeated when
clocks are set back; frames filling a gap after clocks are set forward were
misaligned and overlapped the following ones.
---
 estrade/graph/frame_set.py  | 13 ++++++++++---
 estrade/mixins/timeframe.py | 12 ++++++++----
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index b80ec9f..2be2b4e 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -1,6 +1,9 @@
 import logging
 from typing import Dict, List, Optional, TYPE_CHECKING
 
+import arrow  # type: ignore
+from dateutil.tz import resolve_imaginary
+
 from estrade.enums import Unit
 from estrade.mixins import RefMixin, TimeframeMixin
 
@@ -221,12 +224,16 @@ class FrameSet(TimeframeMixin, RefMixin):
     def _create_new_frame_timed(self, tick: "Tick") -> None:
         period_start = self.get_frame_start(tick.datetime)
         period_end = self.get_frame_end(period_start)
+        # a wall time skipped when clocks are set forward does not exist
+        period_start = arrow.get(resolve_imaginary(period_start.datetime))
         if self.current:
-            while period_start > self.current.period_end:
+            while period_start.to("UTC") > self.current.period_end.to("UTC"):
+                # a timeframe can start before this date when clocks are set forward
+                gap_start = self.get_frame_start(self.current.period_end)
                 self.create_new_frame(
                     self.current.last_tick,
                     self.current.period_end,
-                    self.get_frame_end(self.current.period_end),
+                    self.get_frame_end(gap_start),
                 )
 
         self.create_new_frame(tick, period_start, period_end)
@@ -241,7 +248,7 @@ class FrameSet(TimeframeMixin, RefMixin):
         )
 
     def is_frame_over_timed(self, tick: "Tick") -> bool:
-        if not self.current or tick.datetime >= self.current.period_end:
+        if not self.current or tick.datetime_utc >= self.current.period_end.to("UTC"):
             return True
         return False
 
diff --git a/estrade/mixins/timeframe.py b/estrade/mixins/timeframe.py
index 13107ae..fa5309d 100644
--- a/estrade/mixins/timeframe.py
+++ b/estrade/mixins/timeframe.py
@@ -74,6 +74,10 @@ class TimeframeMixin:
         """
         if not self._timedelta:
             return frame_start
+        if self.unit in [Unit.SECOND, Unit.MINUTE]:
+            # elapsed time: wall times are repeated when clocks are set back
+            frame_end = frame_start.to("UTC").shift(**self._timedelta)
+            return frame_end.to(frame_start.tzinfo)
         frame_end = frame_start.shift(**self._timedelta)
         return frame_end
 
@@ -85,19 +89,19 @@ class TimeframeMixin:
         return dt
 
     def _get_timeframe_start_seconds(self, dt: "Arrow") -> "Arrow":
-        seconds_start = dt - timedelta(
+        seconds_start = dt.to("UTC") - timedelta(
             seconds=dt.second % self.unit_quantity,
             microseconds=dt.microsecond,
         )
-        return seconds_start
+        return seconds_start.to(dt.tzinfo)
 
     def _get_timeframe_start_minutes(self, dt: "Arrow") -> "Arrow":
-        minutes_start = dt - timedelta(
+        minutes_start = dt.to("UTC") - timedelta(
             minutes=dt.minute % self.unit_quantity,
             seconds=dt.second,
             microseconds=dt.microsecond,
         )
-        return minutes_start
+        return minutes_start.to(dt.tzinfo)
 
     def _get_timeframe_start_hours(self, dt: "Arrow") -> "Arrow":
         hours_start = dt - timedelta(
-- 
2.43.0


From e45cb886158c51dd8c91e5f35cf97576a10b9049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:29 +0000
Subject: [PATCH 11/22] fix: limit RSI and moving average history on a single
 period

A slice from -0 keeps the whole list.
---
 estrade/graph/indicators/rsi.py                   | 3 ++-
 estrade/graph/indicators/simple_moving_average.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/estrade/graph/indicators/rsi.py b/estrade/graph/indicators/rsi.py
index 504feb8..a5d28ee 100644
--- a/estrade/graph/indicators/rsi.py
+++ b/estrade/graph/indicators/rsi.py
@@ -48,7 +48,8 @@ class RSIValue(BaseIndicatorValue):
 
         if self.rsi_periods:
             max_last_changes_size = self.rsi_periods - 1
-            self.last_changes = self.last_changes[(max_last_changes_size * -1) :]
+            nb_outdated_changes = max(0, len(self.last_changes) - max_last_changes_size)
+            self.last_changes = self.last_changes[nb_outdated_changes:]
 
             self._update_rsi()
 
diff --git a/estrade/graph/indicators/simple_moving_average.py b/estrade/graph/indicators/simple_moving_average.py
index 45ddf61..0b36aa7 100644
--- a/estrade/graph/indicators/simple_moving_average.py
+++ b/estrade/graph/indicators/simple_moving_average.py
@@ -38,7 +38,8 @@ class SimpleMovingAverageValue(BaseIndicatorValue):
             self.last_closes = self.previous.extended_closes[:]  # type: ignore
 
         max_last_closes_size = self.indicator.max_periods - 1  # type: ignore
-        self.last_closes = self.last_closes[(max_last_closes_size * -1) :]
+        nb_outdated_closes = max(0, len(self.last_closes) - max_last_closes_size)
+        self.last_closes = self.last_closes[nb_outdated_closes:]
 
     @property
     def extended_closes(self) -> List[float]:
-- 
2.43.0


From 365be563eb41fa0383e50afc09d691ba3eb1831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:35 +0000
Subject: [PATCH 12/22] fix: ignore closed market ticks in market open only
 moving averages

---
 estrade/graph/indicators/simple_moving_average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/graph/indicators/simple_moving_average.py b/estrade/graph/indicators/simple_moving_average.py
index 0b36aa7..8d1662e 100644
--- a/estrade/graph/indicators/simple_moving_average.py
+++ b/estrade/graph/indicators/simple_moving_average.py
@@ -43,7 +43,7 @@ class SimpleMovingAverageValue(BaseIndicatorValue):
 
     @property
     def extended_closes(self) -> List[float]:
-        extended_closes = self.last_closes + [self.frame.last_tick.value]
+        extended_closes = self.last_closes + [self.last_tick.value]
         return extended_closes
 
     def get_value(self, periods: int) -> Optional[float]:
-- 
2.43.0


From 8385a8866fd7120c67290586448690c623e3d931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:40 +0000
Subject: [PATCH 13/22] fix: return the result of an empty list of trades

An empty list was replaced by all the trades of the strategy.
---
 estrade/strategy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estrade/strategy.py b/estrade/strategy.py
index db06314..66cc04d 100644
--- a/estrade/strategy.py
+++ b/estrade/strategy.py
@@ -145,7 +145,7 @@ class BaseStrategy(RefMixin):
         Returns:
             Result of the input list of trades.
         """
-        if not trades:
+        if trades is None:
             trades = self.trades
 
         result = 0.0
@@ -167,7 +167,7 @@ class BaseStrategy(RefMixin):
         Returns:
             Profit factor of the input list of trades.
         """
-        if not trades:
+        if trades is None:
             trades = self.trades
 
         sum_positive = 0.0
-- 
2.43.0


From 4ddd601cd550981fc1785f25659198c644fb51cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:53 +0000
Subject: [PATCH 14/22] fix: handle candles and pivots valued at zero as any
 other value

---
 estrade/graph/indicators/candle_set.py |  8 ++++----
 estrade/graph/indicators/pivot.py      | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/estrade/graph/indicators/candle_set.py b/estrade/graph/indicators/candle_set.py
index a8d969d..450e908 100644
--- a/estrade/graph/indicators/candle_set.py
+++ b/estrade/graph/indicators/candle_set.py
@@ -60,7 +60,7 @@ class BaseCandle(BaseIndicatorValue):
         Returns:
             Color as [`CandleColor`][estrade.enums.CandleColor] enum.
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         if self.last > self.open:
@@ -105,7 +105,7 @@ class BaseCandle(BaseIndicatorValue):
                 |
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         return round(abs(self.open - self.last), 2)
@@ -127,7 +127,7 @@ class BaseCandle(BaseIndicatorValue):
                 |
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
         return round(self.high - (max(self.open, self.last)), 2)
 
@@ -148,7 +148,7 @@ class BaseCandle(BaseIndicatorValue):
                 |  ┘
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         return round(min(self.open, self.last) - self.low, 2)
diff --git a/estrade/graph/indicators/pivot.py b/estrade/graph/indicators/pivot.py
index a605f0c..2db0b1a 100644
--- a/estrade/graph/indicators/pivot.py
+++ b/estrade/graph/indicators/pivot.py
@@ -117,7 +117,7 @@ class PivotTypeClassic(BasePivotType):
             Support 1 value (pivot * 2 - high).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round((pivot * 2) - self.previous.high_tick.value, 2)  # type: ignore
         return None
 
@@ -130,7 +130,7 @@ class PivotTypeClassic(BasePivotType):
             Support 2 value (pivot - (high - low)).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 pivot
                 - (
@@ -150,7 +150,7 @@ class PivotTypeClassic(BasePivotType):
             Support 3 value (low - (high - pivot) * 2).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 self.previous.low_tick.value  # type: ignore
                 - ((self.previous.high_tick.value - pivot) * 2),  # type: ignore
@@ -167,7 +167,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 1 value (pivot * 2 - low).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round((pivot * 2) - self.previous.low_tick.value, 2)  # type: ignore
         return None
 
@@ -180,7 +180,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 2 value (pivot - (high - low)).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 pivot
                 + (
@@ -200,7 +200,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 3 value (high + (pivot - low) * 2).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 self.previous.high_tick.value  # type: ignore
                 + ((pivot - self.previous.low_tick.value) * 2),  # type: ignore
-- 
2.43.0


From 2d1c076e60f866affe87232b35f120d67c59fc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:58 +0000
Subject: [PATCH 15/22] fix: compare instants in strategy pauses and trades
 filter

Datetimes in the same timezone are compared by wall time, which is ambiguous in
the hour repeated when clocks are set back.
---
 estrade/strategy.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/estrade/strategy.py b/estrade/strategy.py
index 66cc04d..3317fcd 100644
--- a/estrade/strategy.py
+++ b/estrade/strategy.py
@@ -62,7 +62,8 @@ class BaseStrategy(RefMixin):
     def _is_paused(self, new_tick_date: "Arrow") -> bool:
         if not self.paused_until:
             return False
-        is_still_paused = new_tick_date < self.paused_until
+        # compare instants: wall times are ambiguous when clocks are set back
+        is_still_paused = new_tick_date.to("UTC") < self.paused_until
         if not is_still_paused:
             self.paused_until = None
         return is_still_paused
@@ -128,7 +129,10 @@ class BaseStrategy(RefMixin):
             if (epics is None or trade.epic in epics) and (
                 open_only is False or trade.closed is False
             ):
-                if only_after is not None and trade.datetime < only_after:
+                if (
+                    only_after is not None
+                    and trade.datetime.to("UTC") < only_after  # compare instants
+                ):
                     break
                 yield trade
 
-- 
2.43.0


From 24f16345c7ae5619dd509a07708ba3eead9361b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:56 +0000
Subject: [PATCH 16/22] fix: write headers of a report of trades when there is
 no trade

---
 estrade/reporting/csv.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/estrade/reporting/csv.py b/estrade/reporting/csv.py
index d9aa42a..bfa0c73 100644
--- a/estrade/reporting/csv.py
+++ b/estrade/reporting/csv.py
@@ -11,6 +11,20 @@ if TYPE_CHECKING:  # pragma: no cover
 
 logger = logging.getLogger(__name__)
 
+# keys of `Trade.asdict`: headers are required even if there is no trade to report
+TRADE_HEADERS = [
+    "ref",
+    "status",
+    "epic",
+    "strategy",
+    "open_date",
+    "direction",
+    "open_quantity",
+    "open_value",
+    "closed_quantities",
+    "result",
+]
+
 
 class CSVWriter:
     @staticmethod
@@ -83,11 +97,10 @@ class ReportingCSV:
             if trade_details:
                 target_filename = f"{dt}_{strategy.ref}_trades.csv"
                 trades = []
-                headers: List[str] = []
+                headers: List[str] = TRADE_HEADERS
                 for trade in strategy_trades:
                     trade_dict = trade.asdict()
-                    if not headers:
-                        headers = list(trade_dict.keys())
+                    headers = list(trade_dict.keys())
                     trades.append(trade_dict)
 
                 CSVWriter.dict_to_csv(
-- 
2.43.0


From 1c20047fdf1b75c0784a2ac59642e653f66250d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 17/22] fix: let a strategy add another one when it is notified

---
 estrade/epic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index 834918a..85074cb 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -218,7 +218,8 @@ class Epic(RefMixin):
                 trade.update_from_tick(new_tick)
 
     def _execute_strategies(self, market_open_before_new_tick: bool) -> None:
-        for _, strategy in self.strategies.items():
+        # a strategy can add another one when it is notified
+        for strategy in list(self.strategies.values()):
             if strategy.is_active(self.last_tick.datetime):
                 if market_open_before_new_tick != self.market_open:
                     if market_open_before_new_tick is True:
-- 
2.43.0


From 4ba1e69272c516ffd22956031f80142b7be05e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 18/22] fix: refuse quantities of units under one

---
 estrade/mixins/timeframe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/estrade/mixins/timeframe.py b/estrade/mixins/timeframe.py
index fa5309d..d8c10d3 100644
--- a/estrade/mixins/timeframe.py
+++ b/estrade/mixins/timeframe.py
@@ -34,6 +34,8 @@ class TimeframeMixin:
         self._check_unit_consistency()
 
     def _check_unit_consistency(self) -> None:
+        if self.unit_quantity < 1:
+            raise TimeFrameException("Invalid timeframe Unit")
         if self.unit in [Unit.TICK, Unit.YEAR]:
             return
 
-- 
2.43.0


From ab4f5474f716c0a946eaafb0280e7957d50b516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 19/22] fix: do not keep an indicator which refuses its frame
 set

---
 estrade/graph/frame_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index 2be2b4e..230724a 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -190,8 +190,9 @@ class FrameSet(TimeframeMixin, RefMixin):
         return bool(self.epic and self.epic.market_open)
 
     def add_indicator(self, indicator: "BaseIndicator"):
-        self.indicators[indicator.ref] = indicator
+        # an indicator can refuse this frame set
         indicator.set_frame_set(self)
+        self.indicators[indicator.ref] = indicator
 
     def clean_old_frames(self):
         import gc
-- 
2.43.0


From 417d3d31dd8f6118114ce3c0176950d5c693f793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:12 +0000
Subject: [PATCH 20/22] fix: leave an RSI in use as it is when another frame
 set refuses it

---
 estrade/graph/indicators/rsi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/estrade/graph/indicators/rsi.py b/estrade/graph/indicators/rsi.py
index a5d28ee..3f7cadd 100644
--- a/estrade/graph/indicators/rsi.py
+++ b/estrade/graph/indicators/rsi.py
@@ -128,9 +128,10 @@ class RSI(BaseIndicator):
         self.rsi_periods: Optional[int] = None
 
     def set_frame_set(self, frame_set: "FrameSet") -> None:
-        super(RSI, self).set_frame_set(frame_set)
-        self.rsi_periods = self.periods * frame_set.unit_quantity
-        if self.rsi_periods > frame_set.max_frames_in_memory:
+        rsi_periods = self.periods * frame_set.unit_quantity
+        if rsi_periods > frame_set.max_frames_in_memory:
             raise BaseIndicatorException(
                 "Not enough frames kept in memory to calculate RSI"
             )
+        super(RSI, self).set_frame_set(frame_set)
+        self.rsi_periods = rsi_periods
-- 
2.43.0


From a9857143977a1dd3b4feb735fcfe1702b428b9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:37 +0000
Subject: [PATCH 21/22] fix: do not lose lines of reports made at the same time
 by several threads

---
 estrade/reporting/csv.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/estrade/reporting/csv.py b/estrade/reporting/csv.py
index bfa0c73..5f615f5 100644
--- a/estrade/reporting/csv.py
+++ b/estrade/reporting/csv.py
@@ -1,7 +1,9 @@
 import csv
 import logging
 import os
-from typing import List, TYPE_CHECKING
+import threading
+from functools import wraps
+from typing import Callable, List, TYPE_CHECKING
 
 import arrow  # type: ignore
 
@@ -25,6 +27,19 @@ TRADE_HEADERS = [
     "result",
 ]
 
+_files_lock = threading.Lock()
+
+
+def one_at_a_time(func: Callable) -> Callable:
+    """Let a single thread write files: reports of the same second share them."""
+
+    @wraps(func)
+    def wrapper(*args, **kwargs):
+        with _files_lock:
+            return func(*args, **kwargs)
+
+    return wrapper
+
 
 class CSVWriter:
     @staticmethod
@@ -42,6 +57,7 @@ class CSVWriter:
         return file_exists, open(file_path, open_mode, newline="")
 
     @staticmethod
+    @one_at_a_time
     def dict_to_csv(path, filename, dict_list, headers):
         file_exists, f = CSVWriter.open_file(path, filename)
         with f:
-- 
2.43.0


From 53d381ee99d2c0a502af2be6665fb2651e36ede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:19 +0000
Subject: [PATCH 22/22] fix: do not close more than what is open when several
 threads close a trade

---
 estrade/trade.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/estrade/trade.py b/estrade/trade.py
index 437c870..009f759 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -1,6 +1,8 @@
 import logging
+import threading
 from datetime import datetime as pydatetime
-from typing import Any, Dict, List, Optional, TYPE_CHECKING, Union
+from functools import wraps
+from typing import Any, Callable, Dict, List, Optional, TYPE_CHECKING, Union
 
 import arrow  # type: ignore
 
@@ -15,6 +17,19 @@ if TYPE_CHECKING:  # pragma: no cover
 
 logger = logging.getLogger(__name__)
 
+_trades_lock = threading.RLock()
+
+
+def one_at_a_time(func: Callable) -> Callable:
+    """Let a single thread value or close trades: each step depends on the others."""
+
+    @wraps(func)
+    def wrapper(*args, **kwargs):
+        with _trades_lock:
+            return func(*args, **kwargs)
+
+    return wrapper
+
 
 class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
     """
@@ -167,6 +182,7 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
         if self.result < self.min_result:
             self.min_result = self.result
 
+    @one_at_a_time
     def update(self, current_close_value: float) -> None:
         """
         Update trade with the current market value.
@@ -202,6 +218,7 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
 
         self.update(current_close_value)
 
+    @one_at_a_time
     def update_from_epic(self) -> None:
         """Update current trade from its Epic current value."""
         self.update_from_tick(self.epic.last_tick)
@@ -209,6 +226,7 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
     ####################
     # Close
     ####################
+    @one_at_a_time
     def close(
         self,
         close_value: float,
@@ -254,6 +272,7 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
         self.closes.append(new_close)
         return new_close
 
+    @one_at_a_time
     def close_from_tick(self, tick: "Tick", **kwargs) -> "TradeClose":
         """
         Close current Trade from a Tick instance.
@@ -274,6 +293,7 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
         )
         return trade_close
 
+    @one_at_a_time
     def close_from_epic(self, **kwargs) -> "TradeClose":
         """
         Close Trade with its Epic last tick.
-- 
2.43.0

