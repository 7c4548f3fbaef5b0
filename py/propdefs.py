"""Building blocks of a property's check."""
import os, re, time
import run


class Cases:
    """Seeded harness cases: one binary, one mode, n cases per tier."""

    def __init__(self, harness, mode, quick, thorough=None, require=None, wall=(240, 800), variant="asan", procs=run.NPROC, keys=None, extra=()):
        # keys: of a workload shared by several properties, the failures that are about this one (crashes and hangs always count)
        self.harness, self.mode, self.quick = harness, mode, quick
        self.thorough = thorough or quick * 40
        self.require = require or {}
        self.wall, self.variant, self.procs = wall, variant, procs
        self.extra = tuple(extra)
        self.wrapper = ()
        if variant == "memcheck":
            self.wrapper = run.VALGRIND
            self.extra += ("--cpu", "400")
        self.keys = re.compile(keys) if keys else None

    def label(self):
        return "%s.%s" % (self.harness, self.mode) + ("" if self.variant == "asan" else "@" + self.variant) + "".join(x for x in self.extra if x == "--dbg")

    def _tag(self, r):
        if self.keys:
            r.viol = [v for v in r.viol if re.match(r"(crash|hang|harness|memcheck|memory-left-behind|files-left-open|memory-piles-up|asan|ubsan|tsan|abort)\b", v["key"]) or self.keys.match(v["key"])]
        for v in r.viol:
            v["harness"] = self.harness
            v["variant"] = self.variant
            v["extra"] = list(self.extra)
        return r

    def run(self, tier, hb):
        b = hb(self.harness, self.variant)
        n, w = (self.quick, self.wall[0]) if tier == "quick" else (self.thorough, self.wall[1])
        return self._tag(run.run_cases(b, self.mode, n, wall=w, procs=self.procs, extra=self.extra, wrapper=self.wrapper))

    def run_one(self, b, case, seed):
        return self._tag(run.run_cases(b, self.mode, 1, only=case, sd=seed, extra=self.extra, wrapper=self.wrapper))


class Py:
    """A check written in Python: fn(tier, hb) -> run.Result."""

    def __init__(self, name, fn, require=None, replay=None):
        self.name, self.fn, self.require, self._replay = name, fn, require or {}, replay

    def label(self):
        return self.name

    def run(self, tier, hb):
        r = self.fn(tier, hb)
        for v in r.viol:
            v["py"] = self.name
        return r

    def replay(self, j):
        import check
        r = self._replay(j, check.harness_bin) if self._replay else self.fn("quick", check.harness_bin)
        return r
