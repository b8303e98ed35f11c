"""Reports on the simulated disk."""
import csv
import os
from datetime import timedelta

from . import env, disk as diskmod
from .kernel import hash_str
from .model import BASE, local


class ReportsMixin:
    def _read(self, path):
        """Lines of a file as any CSV reader sees them (real disk access)."""
        with env._real_open(path, newline="", encoding="utf-8", errors="replace") as f:
            return list(csv.reader(f))

    def _kw(self, op):
        """Details are what a report does unless it is told not to."""
        if op["details"] and hash_str(op["id"]) % 2:
            self.probe("details by default")
            return {}
        return {"trade_details": op["details"]}

    def op_report(self, op):
        from estrade.reporting.csv import ReportingCSV

        d = self.disk
        d.begin()
        folder = os.path.join(self.scratch, op["dir"])
        strats = [self.R_strats[s] for s in op["strats"]]
        wall = env.wall_us()
        exp = self._expected_report(op)
        before = self._listing()
        rep = ReportingCSV(target_folder=folder)
        err = None
        self.ev("report", op["id"], wall)
        try:
            self.call("report", lambda: rep.report(strats, **self._kw(op)), allow=(OSError,))
        except OSError as x:
            err = x
        except diskmod.SimCrash as x:
            err = x
        fired = list(d.fired)
        # a report takes time: any second of its duration may name its files, the same for all of them
        end = env.wall_us()
        stamps = [(BASE + timedelta(microseconds=u)).strftime("%Y-%m-%d_%H:%M:%S")
                  for u in range(wall // 1_000_000 * 1_000_000, end + 1, 1_000_000)]
        d.full = d.crashed = False
        self.k.no_preempt += 1
        try:
            if err is not None:
                self.probe("report failed" if isinstance(err, OSError) else "report crashed")
                if not fired:
                    self.fail("P18", "report raised %r without any disk error" % err)
                # what this report could have touched is not specified any more
                now = self._listing()
                for path, size in now.items():
                    if before.get(path) != size:
                        self.tainted.add(path)
            else:
                if any(f[0] in ("EIO", "ENOSPC", "EACCES", "EMFILE", "TORN") for f in fired):
                    self.probe("report survived a fault")
                self.probe("report complete")
                if len(stamps) > 1:
                    self.probe("report over several seconds")
            self.ev("reported", op["id"], type(err).__name__, tuple(fired))
            self._check_after_report(op, folder, self._stamp(op, folder, stamps, before, err), exp, err)
        finally:
            self.k.no_preempt -= 1

    def op_reports(self, op):
        """Several threads of the program report at the same time."""
        from estrade.reporting.csv import ReportingCSV

        d, k = self.disk, self.k
        d.begin()
        wall = env.wall_us()
        todo = op["list"]
        exps = [self._expected_report(x) for x in todo]
        before = self._listing()
        errs = {}

        def one(x):
            def f():
                old = k.begin(x["id"])
                try:
                    rep = ReportingCSV(target_folder=os.path.join(self.scratch, x["dir"]))
                    strats = [self.R_strats[s] for s in x["strats"]]
                    self.call("report", lambda: rep.report(strats, **self._kw(x)), allow=(OSError,))
                except (OSError, diskmod.SimCrash) as e:
                    errs[x["id"]] = e
                finally:
                    self.ev("reported", x["id"], type(errs.get(x["id"])).__name__)
                    k.end(old)
            return f

        ts = []
        for x in todo:
            self.callers.add(x["id"])
            ts.append(k.spawn(one(x), x["id"]))
        for t in ts:
            k.join(t)
        if self.violation:
            return
        end = env.wall_us()
        stamps = [(BASE + timedelta(microseconds=u)).strftime("%Y-%m-%d_%H:%M:%S")
                  for u in range(wall // 1_000_000 * 1_000_000, end + 1, 1_000_000)]
        d.full = d.crashed = False
        k.no_preempt += 1
        try:
            self.probe("reports at the same time")
            self.probe("reports of several threads failed" if errs else "reports of several threads complete")
            if errs and not d.fired:
                self.fail("P18", "reports of several threads raised %r without any disk error" % list(errs.values()))
            self._check_reports(op, todo, exps, stamps, before, errs)
        finally:
            k.no_preempt -= 1

    def _check_reports(self, op, todo, exps, stamps, before, errs):
        now = self._listing()
        groups = {}  # (folder, end of the name) -> kind, lines, touched by a failed report
        for x, exp in zip(todo, exps):
            folder = os.path.join(self.scratch, x["dir"])
            files = [("_strategies.csv", "sum", exp)]
            if x["details"]:
                files += [("_%s_trades.csv" % e["ref"], "det", e["rows"]) for e in exp]
            for suffix, kind, lines in files:
                g = groups.setdefault((folder, suffix), [kind, [], False])
                g[1] += lines
                g[2] |= x["id"] in errs
        known = set()
        for (folder, suffix), (kind, lines, failed) in groups.items():
            paths = [os.path.join(folder, s + suffix) for s in stamps]
            known.update(paths)
            touched = [p for p in paths if p in now and before.get(p) != now[p]]
            if failed:
                self.tainted.update(touched)
            if failed or any(p in self.tainted for p in paths):
                self.probe("tainted file skipped")
                for p in paths:
                    if p in now:
                        if self.on("P19"):
                            self._prefix(p, "reports " + op["id"])
                        if not failed:  # a failed report may leave half a line
                            self.keep_rows(p, self._read(p))
                continue
            got = []
            for p in paths:
                if p not in now:
                    continue
                rows = self._read(p)
                old = self.files.get(p, [])
                if self.on("P18", "P19"):
                    self.ensure(rows and rows[0], "P18", "%s has no header line", os.path.basename(p))
                    self.ensure(rows[:len(old)] == old, "P19", "%s: lines of an earlier report changed", os.path.basename(p))
                    self._columns(p, kind, rows[0])
                got += [(rows[0], r) for r in rows[max(1, len(old)):]]
                self.keep_rows(p, rows)
            if not self.on("P18", "P19"):
                continue
            name = stamps[0] + suffix
            self.ensure(any(p in now for p in paths), "P18", "reports returned but %s does not exist", name)
            self.ensure(len(got) == len(lines), "P18", "%s: %d lines instead of %d of several reports", name, len(got), len(lines))
            left = list(lines)
            for head, r in got:
                ok = [w for w in left if self._row_ok(kind, head, r, w)]
                self.ensure(ok, "P18", "%s: line %r is none of those reported", name, r)
                left.remove(ok[0])
        if self.on("P19"):
            self.check_files("after reports " + op["id"], skip=known)
            names = {p for p in now if p not in self.files and p not in self.tainted and p not in known}
            self.ensure(not names, "P19", "unexpected file %s", sorted(os.path.basename(n) for n in names)[:3])

    def _stamp(self, op, folder, stamps, before, err):
        if len(stamps) == 1 or err is not None:
            return stamps[0]
        now = self._listing()
        got = []
        for s in stamps:
            p = os.path.join(folder, s + "_strategies.csv")
            if p in now and before.get(p) != now[p]:
                got.append(s)
        if not got and not op["strats"]:
            # nothing to add to a file which exists already
            got = [s for s in stamps if os.path.join(folder, s + "_strategies.csv") in now][:1]
        if self.on("P18", "P19"):
            self.ensure(len(got) == 1, "P19", "a report from %s to %s is named after %r", stamps[0], stamps[-1], got)
        return got[0] if got else stamps[0]

    def _listing(self):
        out = {}
        for root, _, files in os.walk(self.scratch):
            for f in files:
                p = os.path.join(root, f)
                out[p] = os.path.getsize(p)
        return out

    def _expected_report(self, op):
        """Values the report must hold, from the model."""
        out = []
        for s in op["strats"]:
            ms = [t for t in self.M_strats[s].trades if t.in_strategy]
            rs = [t.result() for t in ms]
            pos, neg = sum(x for x in rs if x >= 0), -sum(x for x in rs if x < 0)
            pf = pos if neg == 0 else pos / max(neg, 1)
            rows = []
            for t in reversed(ms):
                rt = self.real[t.tid]
                rows.append({
                    "ref": rt.ref if t.ref is None else t.ref, "epic": self.M_epics[t.e].cfg["ref"], "strategy": self.plan["cfg"]["strategies"][s]["ref"],
                    "open_date": local(t.us, self.M_epics[t.e].zone).strftime("%Y-%m-%d %H:%M:%S"),
                    "direction": "BUY" if t.sign > 0 else "SELL",
                    "open_quantity": t.open_qty, "open_value": t.open_value,
                    "closed_quantities": t.closed_qty, "result": t.result(),
                    "status": (rt, rt.status.name)})
            out.append({"s": s, "ref": self.plan["cfg"]["strategies"][s]["ref"], "nb": len(ms),
                        "result": sum(rs), "pf": pf, "rows": rows})
        return out

    def _num(self, s, w, tol=0.0051):
        try:
            return abs(float(s) - w) <= tol + 1e-6 * abs(w)
        except (TypeError, ValueError):
            return False

    def _check_after_report(self, op, folder, stamp, exp, err):
        paths = {os.path.join(folder, stamp + "_strategies.csv"): ("sum", exp)}
        if op["details"]:
            for x in exp:
                p = os.path.join(folder, "%s_%s_trades.csv" % (stamp, x["ref"]))
                if p in paths:  # strategies of one reference share their file
                    x = dict(x, rows=paths[p][1]["rows"] + x["rows"])
                    self.probe("strategies of one reference")
                paths[p] = ("det", x)
        if err is None:
            for p, (kind, x) in paths.items():
                if p in self.tainted:
                    self.probe("tainted file skipped")
                    if self.on("P19"):
                        self._prefix(p, "report " + op["id"])
                    if os.path.isfile(p):
                        self.keep_rows(p, self._read(p))
                    continue
                if self.on("P18", "P19"):
                    self.ensure(os.path.isfile(p), "P18", "report returned but %s does not exist", os.path.basename(p))
                rows = self._read(p) if os.path.isfile(p) else []
                old = self.files.get(p, [])
                if self.on("P18", "P19"):
                    self._check_rows(p, kind, x, rows, len(old))
                if old:
                    self.probe("two reports in one file")
                self.keep_rows(p, rows)
        if self.on("P19"):
            # nothing already reported was lost or changed
            self.check_files("after report " + op["id"], skip=paths if err is None else ())
        if self.on("P19") and err is None:
            names = {p for p in self._listing() if p not in self.files and p not in self.tainted}
            self.ensure(not names, "P19", "unexpected file %s", sorted(os.path.basename(n) for n in names)[:3])

    def keep_rows(self, p, rows):
        if p in self.tainted:  # half a line of a failed report may hide where the following ones start
            with env._real_open(p, "rb") as f:
                rows = f.read()
        self.files[p] = rows

    def _check_rows(self, p, kind, x, rows, n_old):
        name = os.path.basename(p)
        want_n = len(x) if kind == "sum" else len(x["rows"])
        self.ensure(rows and rows[0], "P18", "%s has no header line", name)
        head = rows[0]
        # earlier lines first, under one header
        if n_old:
            old = self.files[p]
            self.ensure(rows[:n_old] == old, "P19", "%s: lines of an earlier report changed", name)
            new = rows[n_old:]
        else:
            new = rows[1:]
        self._columns(p, kind, head)
        self.ensure(len(new) == want_n, "P18", "%s: %d lines instead of %d", name, len(new), want_n)
        want = x if kind == "sum" else x["rows"]
        for got, w in zip(new, want):
            self.ensure(len(got) == len(head), "P18", "%s: a line of %d columns instead of %d", name, len(got), len(head))
            self.ensure(self._row_ok(kind, head, got, w), "P18", "%s: line %r instead of %r", name, dict(zip(head, got)),
                        {k: v for k, v in w.items() if k != "rows"})

    def _columns(self, p, kind, head):
        need = ["ref", "nb_trades", "result", "profit_factor"] if kind == "sum" else \
            ["ref", "epic", "strategy", "open_date", "direction", "open_quantity", "open_value", "closed_quantities", "result", "status"]
        missing = [c for c in need if c not in head]
        self.ensure(not missing, "P18", "%s: no column %s", os.path.basename(p), missing)

    def _row_ok(self, kind, head, got, w):
        if len(got) != len(head):
            return False
        g = dict(zip(head, got))
        if kind == "sum":
            return g["ref"] == w["ref"] and g["nb_trades"] == str(w["nb"]) and self._num(g["result"], w["result"]) \
                and self._num(g["profit_factor"], w["pf"])
        return (all(g[c] == str(w[c]) for c in ("ref", "epic", "strategy", "open_date", "open_quantity", "closed_quantities"))
                and w["direction"] in g["direction"] and self._num(g["open_value"], w["open_value"], 1e-6)
                and self._num(g["result"], w["result"])
                # of a status which changes meanwhile, either may be told
                and (w["status"][1] in g["status"] or w["status"][0].status.name in g["status"]))

    def _prefix(self, p, when):
        old = self.files.get(p)
        if old is None:
            return
        self.ensure(os.path.isfile(p), "P19", "%s: %s was lost", when, os.path.basename(p))
        if isinstance(old, bytes):
            with env._real_open(p, "rb") as f:
                rows = f.read()
        else:
            rows = self._read(p)
        self.ensure(rows[:len(old)] == old, "P19", "%s: lines of %s changed", when, os.path.basename(p))

    def check_files(self, when, skip=()):
        if not self.on("P19", "P18"):
            return
        for p in self.files:
            if p in skip:
                continue
            self._prefix(p, when)
            if p not in self.tainted and self.on("P19"):
                self.ensure(len(self._read(p)) == len(self.files[p]), "P19", "%s: %s grew by itself", when, os.path.basename(p))
