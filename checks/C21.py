"""C21: the generated variants. The repository's generators are run on copies of its sources; the drivers of every other check are compiled against
what they wrote, and the recorded traces are validated against the same specifications."""
import sys, os, importlib, json, time, random, threading
import concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, variants

# all parts of the library; the first of each group says how many scripts of each conformance run are taken (quick, thorough)
PARTS = [("C12", 30, 700), ("C13", 30, 500), ("C01", 40, 700), ("C02", 12, 200), ("C07", 60, 1500), ("C08", 15, 200), ("C11", 5, 200), ("C09", 25, 300), ("C03", 25, 400), ("C10", 25, 400),
         ("C14", 30, 400), ("C15", 40, 600), ("C16", 40, 400), ("C18", 30, 400), ("C17", 25, 400), ("C04", 60, 1500), ("C05", 60, 1500), ("C06", 60, 1500), ("C22", 12, 300)]


class Part(vf.Check):
    """Runs another check's scripts, or some of them, through the variants."""
    def __init__(self, c, pid, take, kinds):
        self.__dict__.update(c.__dict__)
        self.main, self.take, self.kinds, self.seen = c, take, kinds, set()
        self.tier, self.part = "quick", pid
        self.rng = random.Random(f"C21/{pid}/{c.seed}")
        self._exe, self.states, self.transitions, self.traces, self.events = {}, 0, 0, 0, 0
        self.wide = self.apart = 0

    def model(self, module, cfg, **kw):
        kw.pop("what", None)
        key = (module, cfg)
        return super().model(module, cfg, what=f"generator for {self.part}", **kw) if kw.get("gen") else []

    def build(self, src, defs=(), **kw):
        if "-DVF_CLIKE" in defs: return None           # one of the kinds below
        kw.pop("name", None)
        return (src, tuple(defs), tuple(sorted(kw.items())))

    def validate(self, *a, **kw):
        kw.setdefault("shards", 3)                     # several parts at a time
        return super().validate(*a, **kw)

    def exe(self, key, kind):
        src, defs, kw = key
        d, inc = {"segmented": (("-DVF_SEGMENTED",), lambda: variants.variant(self.main, "segmented")), "single header": (("-DVF_SINGLE",), lambda: variants.variant(self.main, "singleheader")),
                  "regenerated base": ((), lambda: variants.regenerated_base(self.main)), "C-like interface": (("-DVF_CLIKE",), lambda: f"{vf.REPO}/base")}[kind]
        return self.main.build(src, defs=(*defs, *d), incs=[inc()], name="".join(x for x in f"{self.part}{src}{kind}{defs}{kw}" if x.isalnum()), **dict(kw))

    def conform(self, module, exe, scripts, what="", **kw):
        if exe is None: return
        n = self.take
        wide = scripts if len(scripts) <= 60 * n else self.rng.sample(scripts, 60 * n)
        some = set(range(len(wide)) if len(wide) <= n else self.rng.sample(range(len(wide)), n))
        drv = dict(timeout=kw.get("timeout", 60), args=kw.get("drvargs", ()), env=kw.get("drvenv"))
        with cf.ThreadPoolExecutor(len(self.kinds)) as ex: list(ex.map(lambda k: self.exe(exe, k), self.kinds))
        runs = {k: self.drive(self.exe(exe, k), wide, **drv) for k in self.kinds}
        # One of several equal traces is validated: some of those on which all variants agree, and all on which they do not.
        cand, apart = [], 0
        for i in range(len(wide)):
            kinds = {}
            for k in self.kinds: kinds.setdefault(json.dumps(runs[k][i]), k)
            apart += len(kinds) > 1
            if i in some or len(kinds) > 1 and apart <= 100: cand += [(i, k) for k in kinds.values()]
        self.wide += len(wide) * len(self.kinds); self.apart += apart
        rej = self.validate(module, [wide[i] for i, _ in cand], [runs[k][i] for i, k in cand], cfg=kw.get("cfg"), env=kw.get("env"))
        if wide and len(self.samples) < 12:
            i = min(some); self.samples.append({"what": f"{self.part}: {what}", "script": wide[i][:8], "trace": (runs[self.kinds[0]][i] or [])[:3]})
        for j, _, _ in rej:
            i, k = cand[j]
            vf.Check.conform(self, module, self.exe(exe, k), [wide[i]], what=f"{k}, {self.part}: {what}", **kw)

    def known_case(self, *a, **kw): pass


def check(c):
    kinds = ["single header", "segmented", "C-like interface"] + (["regenerated base"] if c.thorough else [])
    if os.environ.get("C21_PARTS"): parts = [p for p in PARTS if p[0] in os.environ["C21_PARTS"].split(",")]
    else: parts = PARTS
    for w in ("segmented", "singleheader"): variants.variant(c, w)
    c.shim(True)
    times, lock = {}, threading.Lock()
    mods = {pid: importlib.import_module(pid) for pid, _, _ in parts}

    def run(part):
        pid, quick, deep = part
        t0 = time.time()
        p = Part(c, pid, c.pick(quick, deep), kinds)
        if c.thorough: p.tier = "thorough" if pid in ("C02", "C09", "C10") else "quick"
        try:
            if not c.violations: mods[pid].check(p)
        finally:
            with lock:
                for f in ("states", "transitions", "traces", "events"): setattr(c, f, getattr(c, f) + getattr(p, f))
                c.extra["traces compared"] = c.extra.get("traces compared", 0) + p.wide
                c.extra["scripts on which the variants' traces differ"] = c.extra.get("scripts on which the variants' traces differ", 0) + p.apart
            times[pid] = round(time.time() - t0, 1)
            vf.log(f"{pid} {times[pid]} s, {p.wide} traces, {p.apart} apart")

    with cf.ThreadPoolExecutor(4) as ex: done = [ex.submit(run, p) for p in parts]
    for d in done: d.result()
    c.extra["seconds_by_part"] = times
    c.extra["variants"] = kinds
    c.extra.pop("known", None)
    del c.assumptions[:]
    c.assumptions += ["the assumptions of the checks whose scripts are used", "generators are run as native builds; the sources they write are the same as under Wine"]


if __name__ == "__main__":
    vf.main(check, "C21")
