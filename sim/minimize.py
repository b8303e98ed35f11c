"""Shrinks a failing plan while it fails the same way."""
import copy

from . import env


class Budget(Exception):
    pass


class Minimizer:
    def __init__(self, plan, prop, cat, replay, seconds):
        self.plan, self.prop, self.cat, self.replay = plan, prop, cat, replay
        self.end = env._real["monotonic"]() + seconds
        self.tries = 0
        self.res = None

    def fails(self, plan):
        if env._real["monotonic"]() > self.end:
            raise Budget()
        self.tries += 1
        try:
            r = self.replay(plan, self.prop)
        except Exception:
            return False
        if r["violation"] and r["violation"]["cat"] == self.cat:
            self.res = r
            return True
        return False

    def ddmin(self, items, build):
        """Smallest (1-minimal) sublist for which build(sublist) still fails."""
        n = 2
        while len(items) >= 1:
            size = max(1, len(items) // n)
            removed = False
            i = 0
            while i < len(items):
                cand = items[:i] + items[i + size:]
                if self.fails(build(cand)):
                    items = cand
                    removed = True
                else:
                    i += size
            if size == 1 and not removed:
                break
            n = min(len(items) or 1, n * 2) if not removed else max(2, n)
            if size == 1 and removed:
                continue
        return items

    def keep(self, plan):
        self.plan = plan

    def _with(self, **kw):
        p = copy.copy(self.plan)
        p.update(kw)
        return p

    def try_keep(self, plan):
        if self.fails(plan):
            self.plan = plan
            return True
        return False

    def run(self):
        try:
            while True:
                before = self.size()
                self.one_pass()
                if self.size() >= before:
                    break
        except Budget:
            pass
        return self.plan

    def size(self):
        p = self.plan
        return (len(p["ops"]) + sum(len(a) for a in p["scripts"].values()) + len(p["decisions"])
                + sum(len(s["decisions"]) for s in p.get("schedules", ()))
                + sum(1 + len(f["inds"]) for e in p["cfg"]["epics"] for f in e["fs"]))

    def one_pass(self):
        p = self.plan
        if p.get("schedules"):
            for i in range(len(p["schedules"]) - 1, -1, -1):
                s = self.plan["schedules"]
                self.try_keep(self._with(schedules=s[:i] + s[i + 1:]))
        # operations
        def ops(l):
            return self._with(ops=l)
        self.keep(ops(self.ddmin(self.plan["ops"], ops)))
        ids = {o["id"] for o in self.plan["ops"]}
        alive = {k: v for k, v in self.plan["scripts"].items() if k.split("/")[0] in ids}
        if len(alive) < len(self.plan["scripts"]):
            self.try_keep(self._with(scripts=alive))

        def scripts(l):
            return self._with(scripts=dict(l))
        self.keep(scripts(self.ddmin(list(self.plan["scripts"].items()), scripts)))
        for k in list(self.plan["scripts"]):
            for i in range(len(self.plan["scripts"][k]) - 1, -1, -1):
                sc = dict(self.plan["scripts"])
                # a no-op keeps the numbers of the other actions
                if sc[k][i][0] == "resume":
                    continue
                sc[k] = sc[k][:i] + ([["resume"]] if i < len(sc[k]) - 1 else []) + sc[k][i + 1:]
                self.try_keep(self._with(scripts=sc))

        def decisions(l):
            return self._with(decisions=dict(l))
        self.keep(decisions(self.ddmin(list(self.plan["decisions"].items()), decisions)))
        for i in range(len(self.plan.get("schedules", ()))):
            def sched(l, i=i):
                s = list(self.plan["schedules"])
                s[i] = dict(s[i], decisions=dict(l))
                return self._with(schedules=s)
            self.keep(sched(self.ddmin(list(self.plan["schedules"][i]["decisions"].items()), sched)))
        # configuration
        for e in range(len(self.plan["cfg"]["epics"])):
            for what in ("fs", "strategies"):
                for i in range(len(self.plan["cfg"]["epics"][e][what]) - 1, -1, -1):
                    cfg = copy.deepcopy(self.plan["cfg"])
                    del cfg["epics"][e][what][i]
                    self.try_keep(self._with(cfg=cfg))
            for f in range(len(self.plan["cfg"]["epics"][e]["fs"])):
                for i in range(len(self.plan["cfg"]["epics"][e]["fs"][f]["inds"]) - 1, -1, -1):
                    cfg = copy.deepcopy(self.plan["cfg"])
                    del cfg["epics"][e]["fs"][f]["inds"][i]
                    self.try_keep(self._with(cfg=cfg))
        # simpler arguments
        for i in range(len(self.plan["ops"])):
            o = self.plan["ops"][i]
            if o["o"] == "tick":
                for change in ({"tz": None, "form": None}, {"at": None}):
                    o2 = {k: v for k, v in o.items() if k not in change}
                    if len(o2) < len(o):
                        l = list(self.plan["ops"])
                        l[i] = o2
                        if self.try_keep(self._with(ops=l)):
                            o = o2
