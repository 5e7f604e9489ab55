"""Common machinery of the checks: building instrumented drivers from /repo's working tree, running them, having TLC
judge the recorded traces, model checking the design specifications, and writing evidence."""
import concurrent.futures as cf
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = max(2, min(8, os.cpu_count() or 2))


class Name(str):
    """The name of a definition, for the constants of a model."""


def tla(v):
    if isinstance(v, Name):
        return v
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    return str(v)


class CheckError(Exception):
    """The check itself could not do its work."""


def goenv():
    env = dict(os.environ)
    goroot = "/opt/veriftools/go1.27.3"
    if os.path.isdir(goroot):
        env["GOROOT"] = goroot
        env["PATH"] = goroot + "/bin:" + env.get("PATH", "")
    env.setdefault("HOME", "/root")
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GO111MODULE="on", GONOSUMDB="*",
               GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    return env


class Run:
    """One run of a check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.bins = {}
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.runs = 0
        self.samples = []
        self.models = []
        self.families = []
        self.notes = {}
        self.rejected = []   # (family, spec, trace, position)
        self.known = []      # the same, explained by a known finding
        self.pool = cf.ThreadPoolExecutor(CPUS)
        self.lock = threading.Lock()
        self.seq = itertools.count(1)
        self.building = threading.Lock()

    def number(self):
        return next(self.seq)

    def left(self, total):
        return total - (time.time() - self.t0)

    def close(self):
        self.pool.shutdown(wait=False)
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---------------------------------------------------------------- building

    def build(self, variant):
        """variant: plain, small (small blocks), sched (small blocks, atomics are scheduling points), schedbig (normal
        blocks), stmt (as sched, and every statement is a scheduling point), hold (small blocks, atomics), batch and
        schedbatch (iterators read two items at a time)."""
        with self.building:
            if variant not in self.bins:
                self.bins[variant] = self.make(variant)
            return self.bins[variant]

    def make(self, variant):
        env = goenv()
        out = os.path.join(self.dir, "drv-" + variant)
        args = ["go", "build", "-o", out]
        if variant != "plain":
            ov = os.path.join(self.dir, "ov-" + variant)
            os.makedirs(ov, exist_ok=True)
            flags = {"small": ["-blockshift", "13", "-maxblocks", "8192"],
                     "hold": ["-blockshift", "13", "-maxblocks", "8192", "-atomics"],
                     "schedlock": ["-blockshift", "10", "-maxblocks", "4096", "-atomics"],
                     "sched": ["-blockshift", "12", "-maxblocks", "2048", "-atomics"],
                     "schedmid": ["-blockshift", "14", "-maxblocks", "2048", "-atomics"],
                     "schedbig": ["-atomics"],
                     "batch": ["-prefetch", "1"],
                     "schedbatch": ["-blockshift", "14", "-maxblocks", "2048", "-atomics", "-prefetch", "1"],
                     "stmt": ["-blockshift", "12", "-maxblocks", "2048", "-atomics", "-stmts"]}[variant]
            instr = os.path.join(self.dir, "instr")
            if not os.path.exists(instr):
                p = subprocess.run(["go", "build", "-o", instr, "./instr"], cwd=HARNESS, env=env, capture_output=True, text=True)
                if p.returncode:
                    raise CheckError("building instr: " + p.stderr)
            p = subprocess.run([instr, "-src", REPO, "-out", ov] + flags, cwd=HARNESS, env=env, capture_output=True, text=True)
            if p.returncode:
                raise CheckError("instrumenting: " + p.stderr)
            args += ["-overlay", os.path.join(ov, "overlay.json")]
        p = subprocess.run(args + ["./drv"], cwd=HARNESS, env=env, capture_output=True, text=True)
        if p.returncode:
            raise CheckError("building the driver (%s): %s" % (variant, p.stderr[-4000:]))
        return out

    # ---------------------------------------------------------------- driver runs

    def drive(self, variant, args, timeout=600, env=None):
        """Runs the driver, returns the file with the traces."""
        out = os.path.join(self.dir, "t%d.json" % self.number())
        cmd = [self.build(variant)] + args + ["-out", out]
        e = dict(os.environ)
        e.update(GOMAXPROCS="2", GOTRACEBACK="all")
        if env:
            e.update(env)
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("driver timed out: " + " ".join(cmd))
        if died_in_radix(p):
            # the process died in the code under test; run it again keeping a journal, to have the trace
            j = out + ".journal"
            e["DRV_JOURNAL"] = j
            p2 = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, errors="replace")
            lines = []
            if died_in_radix(p2) and os.path.exists(j):
                lines = [json.loads(x) for x in open(j).read().split("\n") if x.strip("\0 ")]
            if lines:
                tr = lines[0]
                tr["ev"] = lines[1:] + [["crash", p2.stderr[:300]]]
                tr["info"] = p2.stderr[:4000]
                json.dump([tr], open(out, "w"))
                return out, {"runs": 1, "traces": 1, "ops": len(lines)}
            raise CheckError("driver died: " + p.stderr[-3000:])
        if p.returncode:
            raise CheckError("driver failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stderr[-3000:]))
        return out, json.loads(p.stdout.strip().split("\n")[-1])

    # ---------------------------------------------------------------- TLC

    def tlc(self, spec, cfg=None, env=None, workers=1, heap="2g", args=(), timeout=800, stack="16m"):
        md = os.path.join(self.dir, "md%d" % self.number())
        e = dict(os.environ)
        if env:
            e.update(env)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss" + stack, "-Xmx" + heap, "-Djava.io.tmpdir=" + self.dir,
               "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-lncheck", "final", "-metadir", md, "-workers", str(workers),
               "-config", cfg or spec + ".cfg"] + list(args) + [spec + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, capture_output=True, text=True, env=e, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + spec)
        shutil.rmtree(md, ignore_errors=True)
        out = "\n".join(x for x in (p.stdout + p.stderr).split("\n") if not x.startswith(("Parsing file", "Semantic processing", "Linting of")))
        return p.returncode, out

    @staticmethod
    def counts(out):
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        if not m:
            return 0, 0
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))

    def model(self, spec, label, consts=None, invs=(), props=(), init="Spec", view=None, action=None, deadlock=True, expect=None, workers=2, heap="3g",
              timeout=800, cfg=None):
        """Model checks a design specification. expect: the model has a mistake switched on, and TLC must find this
        invariant or property violated (shows that it is not vacuous)."""
        if cfg is None:
            cfg = os.path.join(self.dir, "m%d.cfg" % self.number())
            lines = ["SPECIFICATION " + init] + (["CONSTANTS"] if consts else [])
            for k, v in (consts or {}).items():
                lines.append("  %s %s %s" % (k, "<-" if isinstance(v, Name) else "=", tla(v)))
            if view:
                lines.append("VIEW " + view)
            if action:
                lines.append("ACTION_CONSTRAINT " + action)
            if invs:
                lines.append("INVARIANTS " + " ".join(invs))
            for x in props:
                lines.append("PROPERTY " + x)
            if not deadlock:
                lines.append("CHECK_DEADLOCK FALSE")
            with open(cfg, "w") as f:
                f.write("\n".join(lines) + "\n")
        t0 = time.time()
        rc, out = self.tlc(spec, cfg, workers=workers, heap=heap, timeout=timeout)
        g, d = self.counts(out)
        if expect is None:
            if "Model checking completed. No error has been found." not in out:
                raise CheckError("design model %s: %s" % (label, out[-3000:]))
        else:
            found = set(re.findall(r"Invariant (\w+) is violated", out)) | set(re.findall(r"Temporal property (\w+) (?:is|was) violated", out))
            if "Temporal properties were violated" in out:
                found |= set(props)
            if expect not in found:
                raise CheckError("design model %s should violate %s: %s" % (label, expect, out[-2000:]))
        with self.lock:
            self.states += d
            self.transitions += g
            self.models.append({"model": label, "states": d, "transitions": g, "wall_s": round(time.time() - t0, 1),
                                "result": "no error" if expect is None else "violates %s, as it should" % expect})
        return out

    def validate(self, family, spec, path, known=False):
        """Has TLC judge the traces of a file. Returns the rejected ones."""
        traces = json.load(open(path))
        if not traces:
            return []
        rc, out = self.tlc(spec, env={"TRACES": path, "KNOWN": "1" if known else "0"}, heap="3g")
        m = re.search(r'<<"CHECKED", (\d+), (\d+)>>', out)
        if not m or int(m.group(1)) != len(traces):
            raise CheckError("trace validation with %s did not complete: %s" % (spec, out[-3000:]))
        g, d = self.counts(out)
        rej = [(int(a), int(b)) for a, b in re.findall(r'<<"REJECTED", (\d+), (\d+)>>', out)]
        if len(rej) != int(m.group(2)):
            raise CheckError("cannot read the output of TLC")
        if not known:
            with self.lock:
                self.states += d
                self.transitions += g
                self.traces += len(traces)
                self.events += sum(len(t["ev"]) for t in traces)
                if len([x for x in self.samples if x["family"] == family]) < 4:
                    t = traces[len(traces) // 2]
                    self.samples.append({"family": family, "tag": t.get("tag", ""), "keys": len(t["keys"]), "events": len(t["ev"]),
                                         "excerpt": [short(x) for x in t["ev"][:3] + t["ev"][-3:]]})
        return [(family, spec, traces[a - 1], b) for a, b in rej]

    def job(self, family, variant, args, spec, timeout=600, env=None):
        """A driver run followed by the validation of what it recorded."""
        path, info = self.drive(variant, args, timeout, env)
        rej = self.validate(family, spec, path)
        os.unlink(path)
        return family, info, rej

    def jobs(self, todo):
        """Runs jobs in parallel. A job is (family, variant, args, spec[, env]), or a function that returns more of them."""
        running = set()

        def start(t):
            if callable(t):
                return self.pool.submit(t)
            return self.pool.submit(self.job, t[0], t[1], t[2], t[3], 850, t[4] if len(t) > 4 else None)
        running |= {start(t) for t in todo}
        fam = {}
        err = None
        while running:
            done, running = cf.wait(running, return_when=cf.FIRST_COMPLETED)
            for f in done:
                try:
                    r = f.result()
                except CheckError as e:
                    err = err or e
                    continue
                if not isinstance(r, tuple):
                    running |= {start(t) for t in r or []}
                    continue
                family, info, rej = r
                x = fam.setdefault(family, {"family": family, "runs": 0, "traces": 0, "operations": 0})
                x["runs"] += info["runs"]
                x["traces"] += info["traces"]
                x["operations"] += info.get("ops", 0)
                self.runs += info["runs"]
                self.rejected += rej
        self.families += list(fam.values())
        if err and not self.rejected:
            raise err
        return fam

    # ---------------------------------------------------------------- the end

    def classify(self):
        """Rejected traces that are explained by a known finding go to self.known."""
        path = os.path.join(VERIF, "known-findings.json")
        listed = [f for f in json.load(open(path))["findings"] if f["property"] == self.prop and f["status"] == "known"]
        if not listed or not self.rejected:
            return
        rest = []
        for spec in sorted({r[1] for r in self.rejected}):
            mine = [r for r in self.rejected if r[1] == spec]
            p = os.path.join(self.dir, "rej.json")
            json.dump([r[2] for r in mine], open(p, "w"))
            still = self.validate("known", spec, p, known=True)
            ids = [id_of(s[2]) for s in still]
            for r in mine:
                (rest if id_of(r[2]) in ids else self.known).append(r)
        self.rejected = rest
        if self.known:
            for f in listed:
                print("KNOWN-FINDING: property=%s %s (%d traces)" % (self.prop, f["what"], len(self.known)))

    def finish(self, extra=None):
        self.classify()
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples, "models": self.models, "families": self.families, "events_validated": self.events,
               "executions": self.runs}
        cov.update(self.notes)
        if extra:
            cov.update(extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.rejected),
              "known_findings": len(self.known)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rc = 0
        if self.rejected:
            rc = 1
            os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
            # the shortest one tells most
            best = sorted(self.rejected, key=lambda r: (len(r[2]["ev"]), len(r[2]["keys"])))[0]
            family, spec, tr, pos = best
            name = os.path.join(VERIF, "replay", "%s-%d-%d.json" % (self.prop, self.seed, os.getpid()))
            with open(name, "w") as f:
                json.dump({"property": self.prop, "family": family, "specification": spec, "rejected_event": pos,
                           "event": tr["ev"][pos - 1] if 0 < pos <= len(tr["ev"]) else None, "trace": tr,
                           "rejected_traces": len(self.rejected)}, f)
            e = tr["ev"][pos - 1] if 0 < pos <= len(tr["ev"]) else None
            print("rejected: %d of %d traces; family %s, event %d of %d: %s" % (len(self.rejected), self.traces, family, pos, len(tr["ev"]), short(e)))
            print("VIOLATION property=%s replay=%s" % (self.prop, name))
        print("%s %s: %d states, %d traces of %d executions validated, %.0f s" % (
            self.prop, "violated" if rc else "ok", self.states, self.traces, self.runs, time.time() - self.t0))
        return rc


ASSUMPTIONS = [
    "Go's atomic operations are sequentially consistent; interleavings are explored at the granularity stated per family",
    "the driver's storage (value to key) and its recording of calls and answers",
    "TLC's evaluation of the specifications",
]


def died_in_radix(p):
    """Tells if a process was ended by the code under test: its frame is the topmost one outside of the runtime."""
    if p.returncode != 2:
        return False
    i = p.stderr.find("goroutine ")
    if i < 0:
        return False
    for line in p.stderr[i:].split("\n\n")[0].split("\n")[1:]:
        if line.startswith(("\t", "runtime.", "panic(", "runtime/", "internal/", "sync.", "sync/", "created by runtime")):
            continue
        if line.startswith(("verif/harness/vshim", "main.")):
            return line.startswith("verif/harness/vshim") and "jayloop/radix." in p.stderr[i:].split("\n\n")[0]
        return "jayloop/radix." in line
    return False


def short(e):
    s = json.dumps(e)
    return s if len(s) < 300 else s[:300] + "..."


def id_of(t):
    return json.dumps(t["ev"]) + json.dumps(t["keys"])
