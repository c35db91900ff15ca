"""Shared machinery of the checks: builds drivers from /repo's working tree, runs them on scripts, and has TLC
   (a) model-check the specifications, (b) generate behaviours from them, (c) validate recorded traces against them.

Exit codes: 0 held, 1 a confirmed violation (VIOLATION line), 2 the check itself failed."""
import concurrent.futures as cf, hashlib, itertools, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
HARN = f"{VERIF}/harness"
SPEC = f"{VERIF}/spec"
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)

SHIMFLAGS = ["-fshort-wchar", "-O1", "-w"]
LIBFLAGS = ["-D_WIN64=1", f"-I{HARN}/winshim", f"-I{HARN}", "-DGEN_TIME", "-fms-extensions", "-fshort-wchar",
            "-fno-exceptions", "-fdelayed-template-parsing", "-std=c++17", "-Wno-everything", "-g1"]
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]


NUMBER, NUMBERS = threading.Lock(), itertools.count(1)


def brief(x):
    """a value with its long texts and sequences cut: for the samples of the evidence"""
    if isinstance(x, str):
        return x if len(x) <= 300 else x[:300] + f"... ({len(x)} characters)"
    if isinstance(x, list):
        return [brief(v) for v in x[:60]] + ([f"... ({len(x)} elements)"] if len(x) > 60 else [])
    if isinstance(x, dict):
        return {k: brief(v) for k, v in x.items()}
    return x


class CheckError(Exception):
    """The check could not decide (exit 2)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Violated(Exception):
    """A violation is confirmed and reported: the rest of the check adds nothing."""


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random(f"{pid}/{self.seed}")
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"vf_{pid}_", dir=os.environ.get("TMPDIR", "/tmp"))
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.samples, self.models, self.violations, self.known = [], [], [], []
        self.extra, self.assumptions = {}, []
        self.opcounts = {}
        self._exe = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- build and run
    def sh(self, cmd, timeout=600, env=None, cwd=None, stdin=None, check=True):
        e = dict(os.environ); e.update(env or {})
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd,
                           input=stdin)
        out = p.stdout.decode("utf-8", "replace")
        if check and p.returncode != 0:
            raise CheckError(f"{' '.join(map(str, cmd))[:400]}: exit {p.returncode}\n{out[-4000:]}")
        return p.returncode, out

    def shim(self, asan):
        o = f"{self.tmp}/shim{int(asan)}.o"
        if not os.path.exists(o):
            self.sh(["clang++-18", "-c", *SHIMFLAGS, *(ASAN if asan else []), f"-I{HARN}/winshim",
                     f"{HARN}/winshim/winshim.cpp", "-o", o])
        return o

    def build(self, src, defs=(), asan=True, debug=0, opt="-O0", incs=None, name=None, extra=()):
        """Compiles a driver (which includes the library sources of /repo) and returns the executable."""
        key = (src, tuple(defs), asan, debug, opt, tuple(incs or ()), tuple(extra))
        if key in self._exe:
            return self._exe[key]
        with NUMBER: n = next(NUMBERS)
        exe = f"{self.tmp}/{name or 'drv'}{n}"
        incs = incs if incs is not None else [f"{REPO}/base"]
        self.sh(["clang++-18", *LIBFLAGS, opt, f"-DGEN_BUILD_DEBUG={debug}", *[f"-I{i}" for i in incs], *defs,
                 *(ASAN if asan else []), *extra, src if src.startswith("/") else f"{HARN}/{src}", self.shim(asan), "-o", exe])
        self._exe[key] = exe
        return exe

    ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0:detect_stack_use_after_return=0"}

    def drive(self, exe, scripts, timeout=60, env=None, args=(), parallel=True, max_crashes=6):
        """Runs a driver on scripts (lists of op lines). Returns one event list per script; a script the driver died or hung
        in ends with a Crash event."""
        if not scripts:
            return []
        res = [None] * len(scripts)
        chunks = [list(range(i, len(scripts), NCPU)) for i in range(NCPU)] if parallel and len(scripts) > 16 else [list(range(len(scripts)))]
        chunks = [c for c in chunks if c]

        def work(ids):
            todo, crashes = ids, 0
            while todo:
                d = tempfile.mkdtemp(prefix="drv", dir=self.tmp)
                with open(f"{d}/in", "w") as f:
                    for i in todo:
                        f.write(f"S {i}\n")
                        for ln in scripts[i]:
                            f.write(ln + "\n")
                    f.write("E\n")
                os.mkdir(f"{d}/fs")
                e = dict(os.environ); e.update(self.ENV); e["VF_FSROOT"] = f"{d}/fs"; e.update(env or {})
                tot = timeout + 0.02 * sum(len(scripts[i]) for i in todo)
                why = None
                with open(f"{d}/err", "wb") as er:
                    p = subprocess.Popen([exe, f"{d}/in", f"{d}/out", *args], stdout=er, stderr=er, stdin=subprocess.DEVNULL,
                                         env=e, cwd=f"{d}/fs", preexec_fn=lambda: os.nice(0))
                    # a hang is a single script that makes no progress, not a slow machine
                    last, lastt, t0 = -1, time.time(), time.time()
                    while True:
                        try:
                            p.wait(timeout=1); break
                        except subprocess.TimeoutExpired:
                            try:
                                sz = os.path.getsize(f"{d}/out")
                            except OSError:
                                sz = 0
                            if sz != last:
                                last, lastt = sz, time.time()
                            if time.time() - lastt > timeout or sz > 3_000_000_000:
                                p.kill(); p.wait(); why = "hang"; break
                if why is None and p.returncode != 0:
                    why = f"exit {p.returncode}"
                done = {}
                order = []
                ended = False
                try:
                    with open(f"{d}/out", "rb") as f:
                        for raw in f:
                            if not raw.endswith(b"\n"):
                                break
                            ev = json.loads(raw)
                            if ev.get("op") == "End":
                                ended = True; break
                            sid = ev.pop("sid")
                            if sid not in done:
                                done[sid] = []; order.append(sid)
                            done[sid].append(ev)
                except (OSError, ValueError) as x:
                    raise CheckError(f"driver output unreadable: {x}")
                err = open(f"{d}/err", "rb").read().decode("utf-8", "replace")
                shutil.rmtree(d, ignore_errors=True)
                if why is None and not ended:
                    why = "exited early"
                for i in order:
                    res[i] = done[i]
                if why is None:
                    break
                if not order:
                    raise CheckError(f"driver {exe} failed before its first script: {why}\n{err[-3000:]}")
                cur = order[-1]
                n = len(res[cur]) - 1          # events after Reset
                res[cur].append({"op": "Crash", "at": scripts[cur][n] if n < len(scripts[cur]) else "end",
                                 "why": why, "detail": crash_line(err)})
                crashes += 3 if why == "hang" else 1
                todo = todo[todo.index(cur) + 1:]
                if crashes >= max_crashes:
                    for i in todo:
                        res[i] = None
                    break
            return crashes

        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(work, chunks))
        return res

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=840, args=(), heap="3g", jprops=()):
        d = tempfile.mkdtemp(prefix="tlc", dir=self.tmp)
        e = dict(os.environ); e.update(env or {})
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={d}", *jprops,
               f"-DTLA-Library={SPEC}", "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", d, "-noTE",
               "-config", f"{SPEC}/{cfg}", *args, f"{SPEC}/{module}.tla"]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=d, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC {module} {cfg}: timeout")
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return p.returncode, p.stdout.decode("utf-8", "replace")

    def model(self, module, cfg, workers=NCPU, what="", env=None, gen=False, heap="6g", actions=None):
        """Exhaustively model-checks a specification; its invariants and action properties must hold on the model.
        Returns the JSON values the model printed (behaviours), if any."""
        rc, out = self.tlc(module, cfg, workers=workers, env=env, args=("-coverage", "1") if actions else (), heap=heap)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError(f"model {module} {cfg} failed (rc {rc}):\n{out[-5000:]}")
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        g, dct = (int(x.replace(",", "")) for x in m[-1])
        self.states += dct; self.transitions += g
        self.models.append({"module": module, "config": cfg, "distinct_states": dct, "transitions": g, "what": what})
        res = []
        if gen:
            for ln in out.splitlines():
                if ln.startswith('"') and ln.endswith('"'):
                    try:
                        res.append(json.loads(json.loads(ln)))
                    except ValueError:
                        pass
            res = [json.loads(x) for x in sorted({json.dumps(r) for r in res})]
        return res

    def _trace_run(self, module, cfg, evs, env=None):
        fd, path = tempfile.mkstemp(prefix="trace", suffix=".ndjson", dir=self.tmp)
        with os.fdopen(fd, "w") as f:
            for e in evs:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
        e = {"TRACE": path}; e.update(env or {})
        try:
            rc, out = self.tlc(module, cfg, env=e, heap="3g")
        finally:
            os.unlink(path)
        m = re.search(r'<<"TRACE", (\d+), (\d+), (TRUE|FALSE)>>', out)
        if m and int(m.group(2)) == len(evs):
            if m.group(3) == "TRUE" and "No error has been found" in out:
                return None
            if m.group(3) == "FALSE":
                k = int(m.group(1))
                return k, out
        inv = re.search(r"(Invariant|Action property) (\S+) .*violated", out)
        if inv:
            ks = re.findall(r"/\\ l = (\d+)", out)
            if ks:
                return max(int(ks[-1]) - 2, 0), out
        raise CheckError(f"trace validation {module} failed (rc {rc}):\n{out[-6000:]}")

    def validate(self, module, scripts, runs, cfg=None, env=None, shards=None):
        """Has TLC check every recorded run against the trace specification. Returns the list of rejected script ids with the
        event at which the specification and the code part."""
        cfg = cfg or f"{module}.cfg"
        ids = [i for i, r in enumerate(runs) if r is not None]
        for i in ids:
            for ev in runs[i]:
                self.opcounts[ev["op"]] = self.opcounts.get(ev["op"], 0) + 1
        total = sum(len(runs[i]) for i in ids)
        shards = shards or (NCPU if total > 400 else 1)
        parts = [[] for _ in range(shards)]
        sizes = [0] * shards
        for i in ids:
            k = sizes.index(min(sizes)); parts[k].append(i); sizes[k] += len(runs[i])
        rejected = []

        def work(part):
            rej, todo = [], part
            while todo:
                evs, where = [], []
                for i in todo:
                    for j, ev in enumerate(runs[i]):
                        evs.append(ev); where.append((i, j))
                r = self._trace_run(module, cfg, evs, env)
                if r is None:
                    break
                i, j = where[r[0]] if r[0] < len(where) else where[-1]
                rej.append((i, j, r[1]))
                if len(rej) >= 5:
                    break
                todo = todo[todo.index(i) + 1:]
            return rej

        with cf.ThreadPoolExecutor(NCPU) as ex:
            for rej in ex.map(work, [p for p in parts if p]):
                rejected += rej
        self.traces += len(ids); self.events += total
        self.states += total; self.transitions += total
        return sorted(rejected, key=lambda r: r[0])

    def conform(self, module, exe, scripts, what="", cfg=None, env=None, drvargs=(), drvenv=None, timeout=60, known=()):
        """drive + validate + confirm. Every rejection is re-run alone (driver and TLC) before it is reported."""
        runs = self.drive(exe, scripts, timeout=timeout, args=drvargs, env=drvenv)
        ok = [i for i, r in enumerate(runs) if r is not None]
        rej = self.validate(module, scripts, runs, cfg=cfg, env=env)
        if scripts and ok and len(self.samples) < 12:
            i = ok[len(ok) // 2]
            self.samples.append({"what": what, "script": brief(scripts[i][:20]), "trace": brief(runs[i][:6])})
        nconf = 0
        for i, j, out in rej:
            hung = runs[i][-1].get("why") == "hang"
            again = self.drive(exe, [scripts[i]], timeout=min(timeout, 30) if hung else timeout, args=drvargs, env=drvenv, parallel=False)
            r2 = self._trace_run(module, cfg or f"{module}.cfg", again[0], env)
            scr = [scripts[i]]
            if r2 is None:
                # Process-wide history can matter: repeat with the scripts that ran before it in the same process.
                step = NCPU if len(scripts) > 16 else 1
                last = i + step if runs[i][j].get("op") == "Crash" else i      # it may die while starting the next script
                scr = [scripts[k] for k in range(i % step, min(last + 1, len(scripts)), step)]
                again = [r for r in self.drive(exe, scr, timeout=timeout, args=drvargs, env=drvenv, parallel=False)]
                flat = [e for r in again if r is not None for e in r]
                r2 = self._trace_run(module, cfg or f"{module}.cfg", flat, env)
                if r2 is None:
                    raise CheckError(f"{self.pid}: rejection of script {i} did not repeat: {scripts[i]} {runs[i][j]}")
                again = [flat]
            ev = again[0][min(r2[0], len(again[0]) - 1)]
            self.violate(what, {"module": module, "script": scr[0] if len(scr) == 1 else scr, "at": r2[0], "event": ev, "previous": again[0][max(0, r2[0] - 1)],
                                "driver_args": list(drvargs)})
            nconf += 1
            if nconf >= 2 or hung:
                break
        if nconf:
            raise Violated()
        return runs

    def known_case(self, ident, module, exe, script, cfg=None, env=None, drvargs=(), drvenv=None, timeout=60):
        """A case recorded in KNOWN_FINDINGS as `known: property=<pid> id=<ident> <text>`: while the code fails it, it is a
        finding and not an alarm; a case that is not in the file is checked like any other."""
        text = None
        for ln in open(f"{VERIF}/KNOWN_FINDINGS"):
            m = re.match(rf"known: property={self.pid} id={re.escape(ident)} (.*)", ln)
            if m:
                text = m.group(1)
        if text is None:
            return self.conform(module, exe, [script], what=ident, cfg=cfg, env=env, drvargs=drvargs, drvenv=drvenv, timeout=timeout)
        runs = self.drive(exe, [script], timeout=timeout, args=drvargs, env=drvenv, parallel=False)
        if self._trace_run(module, cfg or f"{module}.cfg", runs[0], env) is not None:
            self.finding(f"{ident}: {text}")

    # ---------------------------------------------------------------- results
    def violate(self, what, replay):
        os.makedirs(f"{VERIF}/evidence/replay", exist_ok=True)
        path = f"{VERIF}/evidence/replay/{self.pid}-{len(self.violations) + 1}.json"
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": what, **replay}, f, indent=1)
        self.violations.append(path)
        d = json.dumps(replay.get("event", replay))[:1500]
        print(f"{self.pid}: {what}: the code does something the specification does not allow: {d}")
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)

    def finding(self, text):
        print(f"KNOWN-FINDING: property={self.pid} {text}", flush=True)
        self.known.append(text)

    def finish(self):
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "trace_events": self.events, "events_by_action": dict(sorted(self.opcounts.items())), "models": self.models,
               "samples": self.samples or ["(none)"], **self.extra}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(f"{VERIF}/evidence/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        log(f"{self.pid} {self.tier}: {self.states} states, {self.traces} traces, {self.events} events, "
            f"{len(self.violations)} violations, {ev['wall_s']} s")


def crash_line(err):
    m = re.search(r"SUMMARY: (.*)", err)
    if m:
        return re.sub(r"/tmp/\S*/", "", m.group(1))[:300]
    t = [x for x in err.strip().splitlines() if x.strip()]
    return t[-1][:300] if t else ""


def hexs(s):
    if isinstance(s, str):
        s = s.encode("latin-1")
    return "x" + s.hex()


def main(fn, pid, level="model_checking"):
    c = None
    rc = 2
    try:
        c = Check(pid, level)
        fn(c)
        c.finish()
        rc = 1 if c.violations else 0
    except Violated:
        c.finish()
        rc = 1
    except CheckError as x:
        log(f"{pid}: CHECK ERROR: {x}")
        rc = 1 if c and c.violations else 2
        if c and c.violations:
            c.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if c:
            shutil.rmtree(c.tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)
