"""Shared machinery of every check: run TLC on a model, collect the behaviours it emits,
drive the real code with them, and let TLC judge the recorded traces."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class MachineryError(Exception):
    pass


def clean_env(extra=None):
    env = {
        "HOME": "/root", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
        "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg",
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
        "PYTHONPATH": VERIF + ":" + REPO, "PYTHONWARNINGS": "ignore",
        "VF_REPO": REPO,
    }
    if extra:
        env.update({k: str(v) for k, v in extra.items()})
    return env


class Ctx:
    """One run of one check."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        base = os.environ.get("VF_SCRATCH", "/tmp")
        self.dir = tempfile.mkdtemp(prefix="vf_%s_" % pid, dir=base)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.models = []
        self.samples = []
        self.notes = {}
        self.bad = []          # list of dict(trace=..., event=..., clauses=[...])
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=None, simulate=None, depth=None, timeout=600,
            heap="3g", allow_violation=False):
        """Run TLC on spec/<module>.tla with the configuration text `cfg`. Returns stdout."""
        wd = tempfile.mkdtemp(prefix="tlc_", dir=self.dir)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(wd, f))
        with open(os.path.join(wd, "run.cfg"), "w") as fh:
            fh.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC",
               "-config", "run.cfg", "-metadir", os.path.join(wd, "meta"), "-noGenerateSpecTE",
               "-lncheck", "final", "-fp", "1"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100),
                    "-seed", str(self.seed), "-workers", "1"]
        else:
            cmd += ["-workers", str(workers or NCPU)]
        cmd += [module + ".tla"]
        e = clean_env(env)
        try:
            r = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired as ex:
            raise MachineryError("TLC timed out on %s" % module)
        out = r.stdout
        with open(os.path.join(self.dir, "tlc_%s_%d.out" % (module, len(self.models))), "w") as fh:
            fh.write(out)
        ok = ("No error has been found" in out) or (simulate and "Error:" not in out)
        if not ok and not allow_violation:
            raise MachineryError("TLC reported an error on %s:\n%s" % (module, out[-6000:]))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        g = d = 0
        if m:
            g, d = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r"(?:The number of states generated: |Progress: )(\d+)", out.replace(",", ""))
            if m:
                g = d = int(m[-1])
        self.states += d
        self.transitions += g
        self.models.append({"module": module, "generated": g, "distinct": d,
                            "mode": "simulate" if simulate else "exhaustive"})
        shutil.rmtree(wd, ignore_errors=True)
        return out

    def cases(self, out):
        """Behaviours printed by a model as  VFCASE <json>  lines (deduplicated, in order)."""
        res, seen = [], set()
        for line in out.splitlines():
            i = line.find("VFCASE ")
            if i < 0:
                continue
            s = line[i + 7:].rstrip()
            if s.endswith('"'):
                s = s[:-1]
            s = s.replace('\\"', '"').replace("\\\\", "\\")
            if s in seen:
                continue
            seen.add(s)
            res.append(json.loads(s))
        return res

    # ---------------------------------------------------------------- driving the real code
    def drive(self, driver, cases, shards=None, timeout=600, args=(), env=None):
        """Run drivers/<driver>.py on the cases in `shards` processes; one output record per case.
        A case the process died on yields an event {"op": "crash"}."""
        n = max(1, min(shards or NCPU, len(cases)))
        parts = [[] for _ in range(n)]
        for k, c in enumerate(cases):
            c = dict(c)
            c["id"] = k
            parts[k % n].append(c)
        results = {}
        lock = threading.Lock()

        def one(si):
            todo = parts[si]
            attempt = 0
            while todo:
                attempt += 1
                fi = self.path("drv", "%s_in_%d_%d.ndjson" % (driver, si, attempt))
                fo = self.path("drv", "%s_out_%d_%d.ndjson" % (driver, si, attempt))
                fe = self.path("drv", "%s_err_%d_%d.txt" % (driver, si, attempt))
                wd = self.path("drv", "wd_%s_%d_%d" % (driver, si, attempt), "x")
                wd = os.path.dirname(wd)
                os.makedirs(wd, exist_ok=True)
                with open(fi, "w") as fh:
                    for c in todo:
                        fh.write(json.dumps(c) + "\n")
                open(fo, "w").close()
                ev = clean_env({"VF_WORK": wd, "VF_SEED": self.seed, "VF_DIR": self.dir, "TMPDIR": wd})
                if env:
                    ev.update(env)
                why = None
                with open(fe, "w") as eh:
                    p = subprocess.Popen([PY, os.path.join(VERIF, "drivers", driver + ".py"), fi, fo] + list(args),
                                         cwd=wd, env=ev, stdout=eh, stderr=eh, start_new_session=True)
                    try:
                        rc = p.wait(timeout=timeout)
                        if rc != 0:
                            why = "exit status %d" % rc
                    except subprocess.TimeoutExpired:
                        why = "timeout"
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.wait()
                done = set()
                with open(fo) as fh:
                    for line in fh:
                        try:
                            r = json.loads(line)
                        except ValueError:
                            continue
                        done.add(r["id"])
                        with lock:
                            results[r["id"]] = r
                rest = [c for c in todo if c["id"] not in done]
                if rest:
                    c = rest[0]
                    tail = open(fe, errors="replace").read()[-1500:]
                    with lock:
                        results[c["id"]] = {"id": c["id"], "case": c,
                                            "events": [{"op": "crash", "why": str(why or "no output"), "err": tail}]}
                    rest = rest[1:]
                    if attempt > 6:
                        for c in rest:
                            with lock:
                                results[c["id"]] = {"id": c["id"], "case": c, "events": [
                                    {"op": "crash", "why": "too many crashes", "err": ""}]}
                        rest = []
                todo = rest
                shutil.rmtree(wd, ignore_errors=True)

        with ThreadPoolExecutor(n) as ex:
            for f in [ex.submit(one, s) for s in range(n)]:
                f.result()
        return [results[k] for k in sorted(results)]

    # ---------------------------------------------------------------- judging traces
    def judge(self, module, traces, constants="", timeout=600, heap="6g", label=None):
        """TLC checks every trace against spec/<module>.tla (a trace specification). Collects violations."""
        if not traces:
            return
        crashed = [t for t in traces if t["events"] and t["events"][-1].get("op") == "crash"]
        for t in crashed:
            self.bad.append({"trace": t["id"], "clauses": ["the code under test did not terminate normally"],
                             "record": t})
        rest = [t for t in traces if not (t["events"] and t["events"][-1].get("op") == "crash")]
        if rest:
            f = self.path("traces_%s_%d.ndjson" % (module, len(self.models)))
            with open(f, "w") as fh:
                for t in rest:
                    t2 = {"id": t["id"], "events": t["events"]}
                    if "init" in t:
                        t2["init"] = t["init"]
                    fh.write(json.dumps(t2) + "\n")
            out = self.tlc(module, "INIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceDone\n"
                           "CONSTANTS\n TInit <- MInit\n TStep <- MStep\n TFail <- MFail\n"
                           + constants, env={"VF_LOG": f}, timeout=timeout, heap=heap, allow_violation=True)
            m = re.search(r"VFDONE (\d+) (\d+)", out)
            nev = sum(len(t["events"]) for t in rest)
            broken = not ("No error has been found" in out)
            if broken and ("Attempted to" in out or "TLC encountered" in out or "evaluat" in out):
                # a recorded value has a shape no reply of the specification has
                mm = re.findall(r"/\\ tr = (\d+)", out)
                t = rest[int(mm[-1]) - 1] if mm else rest[0]
                self.bad.append({"trace": t["id"], "clauses": ["the recorded reply has a shape the specification admits"],
                                 "module": module, "record": t, "tlc": out[-1500:]})
                m = m or re.match(r"()()", "")
            elif broken or not m:
                raise MachineryError("trace specification %s gave no verdict:\n%s" % (module, out[-3000:]))
            if not broken and int(m.group(1)) != len(rest):
                raise MachineryError("trace specification %s read %s traces of %d" % (module, m.group(1), len(rest)))
            byid = {t["id"]: t for t in rest}
            for line in out.splitlines():
                i = line.find("VFBAD ")
                if i < 0:
                    continue
                s = line[i + 6:].rstrip()
                if s.endswith('"'):
                    s = s[:-1]
                s = s.replace('\\"', '"').replace("\\\\", "\\")
                b = json.loads(s)
                self.bad.append({"trace": b["id"], "event": b["at"], "clauses": sorted(b["clauses"]),
                                 "module": module, "record": byid[b["id"]]})
            # every chain must have been walked to its end
            chains = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
            want = nev + len(rest)
            got = int(chains.group(2)) if chains else -1
            if got != want and not broken:
                raise MachineryError("trace specification %s consumed %d of %d states" % (module, got, want))
            self.traces += len(rest)
            self.events += nev
        self.traces += len(crashed)
        for t in traces[:: max(1, len(traces) // 3)][:3]:
            s = json.dumps(t)
            if len(s) < 6000:
                self.samples.append(t)
            else:
                self.samples.append({"id": t["id"], "excerpt": s[:2000]})


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def finish(ctx, level="model_checking"):
    known = [k for k in load_known() if k["property"] == ctx.pid and k.get("status") == "open"]
    viol, kf = [], {}
    for b in ctx.bad:
        rec = b["record"]
        key = rec.get("key") or (rec.get("case") or {}).get("key")
        hit = None
        for k in known:
            if key is not None and k["key"] == key and set(b["clauses"]) <= set(k["clauses"]):
                hit = k
        if hit:
            kf[hit["key"]] = hit
        else:
            viol.append(b)
    for k in kf.values():
        print("KNOWN-FINDING: property=%s %s" % (ctx.pid, k["what"]))
    replay = None
    old = os.path.join(VERIF, "evidence", "replay", "%s.json" % ctx.pid)
    if os.path.exists(old):
        os.remove(old)
    if viol:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        replay = os.path.join(rd, "%s.json" % ctx.pid)
        with open(replay, "w") as fh:
            json.dump({"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "count": len(viol),
                       "violations": viol[:20]}, fh, indent=1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level,
        "coverage": {
            "states": ctx.states, "transitions": ctx.transitions,
            "traces_validated_against_impl": ctx.traces,
            "events_validated_against_impl": ctx.events,
            "models": ctx.models, "samples": ctx.samples[:6], **ctx.notes,
        },
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if not os.environ.get("VF_KEEP"):
        shutil.rmtree(ctx.dir, ignore_errors=True)
    if viol:
        for b in viol[:5]:
            ctx.log("trace %s: failing clause(s): %s" % (b["trace"], ", ".join(b["clauses"])))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, replay), flush=True)
        return 1
    ctx.log("held: %d traces, %d events, %d states" % (ctx.traces, ctx.events, ctx.states))
    return 0
