#!/usr/bin/env python3
"""Runs the check of one property:  run.py C01   (tier and seed from VERIF_TIER, VERIF_SEED).

  1. builds the conformance driver against the working tree of /repo;
  2. TLC explores the design specification exhaustively within the configured
     constants, checks the property on it, and emits one behaviour per
     transition; the driver executes each of them on the real code;
  3. the driver records histories of the real code, and TLC validates each
     recorded trace against the contract specification.

Exit 0: everything explored held.  Exit 1: VIOLATION line.  Exit 2: the check
itself failed (no verdict).
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")  # set only by tools/runbugs.sh

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(HERE, "spec")


class Broken(Exception):
    """The check could not reach a verdict."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v[1:] if v.startswith("=") else '"%s"' % v
    if isinstance(v, (list, tuple)):
        return "{%s}" % ", ".join(tla(x) for x in v)
    raise ValueError(v)


def env(extra=None):
    e = dict(os.environ)
    e.update(HOME="/root", GOENV="off", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GODEBUG="randautoseed=0")
    e["PATH"] = "/usr/local/go/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["GORACE"] = "halt_on_error=1 exitcode=%d" % RACED
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(extra or {})
    return e


def java(heap, meta, cfg, module, workers, extra=()):
    return ["java", "-XX:+UseParallelGC", "-Xss64m", "-Djava.io.tmpdir=" + os.path.dirname(cfg), "-Dtlc2.tool.queue.IStateQueue=MemStateQueue", "-Xmx%dm" % heap, "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
            "-metadir", meta, "-config", cfg, *extra, os.path.join(SPEC, module + ".tla")]


RACED = 66
NOISE = re.compile(r"^(Parsing file|Semantic processing|Linting of|\s*$)")


def tail(path, n=25):
    try:
        lines = [x.rstrip()[:300] for x in open(path, errors="replace") if not NOISE.match(x)]
    except OSError:
        return ""
    return "\n".join(lines[-n:])


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.c = CHECKS[pid]
        self.tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.drv = {}
        self.states = self.trans = self.behaviours = self.steps = self.events = self.traces = self.hists = 0
        self.ops, self.samples, self.detail = {}, [], []
        self.lock = threading.Lock()
        self.procs = []
        self.stopped, self.saved = False, None

    # ---- building -------------------------------------------------------
    def build(self):
        names = {(x["driver"], x.get("race", False)) for x in self.c["explore"] + self.c["record"]}
        for d, race in sorted(names):
            # A module file of this run, so that nothing committed is rewritten.
            mod = os.path.join(self.tmp, "go.mod")
            with open(os.path.join(HERE, "harness", "go.mod")) as f:
                text = f.read().replace("=> /repo", "=> " + REPO)
            with open(mod, "w") as f:
                f.write(text)
            shutil.copy(os.path.join(HERE, "harness", "go.sum"), os.path.join(self.tmp, "go.sum"))
            out = os.path.join(self.tmp, d + ("-race" if race else ""))
            p = subprocess.run(["go", "build", *(["-race"] if race else []), "-modfile", mod, "-o", out, "./cmd/" + d], cwd=os.path.join(HERE, "harness"),
                               env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise Broken("building driver %s:\n%s" % (d, p.stdout))
            self.drv[d, race] = out

    def popen(self, cmd, **kw):
        if self.stopped:
            raise Broken("stopped")
        p = subprocess.Popen(cmd, start_new_session=True, **kw)
        with self.lock:
            self.procs.append(p)
        return p

    def killall(self):
        self.stopped = True
        for p in self.procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()

    # ---- replay files ---------------------------------------------------
    def save(self, obj):
        d = os.path.join(HERE, "replay")
        os.makedirs(d, exist_ok=True)
        with self.lock:  # what is found first counts; the rest is being ended
            if self.saved:
                return self.saved
            path = self.saved = os.path.join(d, self.pid + ".json")
        obj = dict(property=self.pid, repo_note="steps of a history; r is what the specification expects, got is what the code did", **obj)
        with open(path, "w") as f:
            json.dump(obj, f, indent=1)
        return path

    def raced(self, rc, err, x):
        """A driver built with the race detector reports the first race and ends with RACED."""
        if rc == RACED:
            msg = open(err, errors="replace").read(8000)
            top = re.search(r"(?:/repo|generic)/(\w+/\w+\.go:\d+)", msg)
            raise Violation("data race between separate programs" + (" at " + top.group(1) if top else ""), self.save(dict(
                kind="race", model=x.get("mc") or x.get("trace"), focus=x.get("focus", ""), note=msg)))

    # ---- 2: model checking and replay -----------------------------------
    def explore(self, idx, x, safe=False):
        name = "x%d%s" % (idx, "s" if safe else "")
        consts = dict(x.get("consts", {}))
        consts.update(x.get(self.tier, {}))
        cfg = os.path.join(self.tmp, name + ".cfg")
        with open(cfg, "w") as f:
            f.write("INIT Init\nNEXT Next\n")
            if x.get("view", "View"):
                f.write("VIEW %s\n" % x.get("view", "View"))
            if x["invs"]:
                f.write("INVARIANTS %s\n" % " ".join(x["invs"]))
            if x.get("props"):
                f.write("PROPERTIES %s\n" % " ".join(x["props"]))
            if x.get("constraint"):
                f.write("CONSTRAINT %s\n" % x["constraint"])
            f.write("ACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n")
            for k, v in consts.items():
                f.write("CONSTANT %s = %s\n" % (k, tla(v)))
        meta = os.path.join(self.tmp, name + ".meta")
        log, out, err = (os.path.join(self.tmp, name + e) for e in (".log", ".json", ".err"))
        t0 = time.time()
        heap = x.get("heap", 4000 if self.tier == "quick" else 8000)
        extra = ["-seed", str(self.seed)]
        if x.get("simulate"):
            extra = ["-simulate", "num=%d" % x["simulate"][self.tier], "-depth", str(x["depth"])] + extra
        t = self.popen(java(heap, meta, cfg, x["mc"], x.get("workers", 8), extra),
                       cwd=self.tmp, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        cmd = [self.drv[x["driver"], x.get("race", False)], "-mode", "replay", "-in", "-", "-out", out, "-log", log, "-focus", x.get("focus", "")]
        if x.get("ops"):
            cmd += ["-check", ",".join(x["ops"])]
        if safe:
            cmd += ["-safe", os.path.join(self.tmp, name + ".pending")]
        with open(err, "w") as ef:
            d = self.popen(cmd, cwd=self.tmp, env=env(), stdin=t.stdout, stdout=subprocess.DEVNULL, stderr=ef)
        t.stdout.close()
        limit = x.get("limit", 600 if self.tier == "quick" else 5400)
        try:
            d.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            raise Broken("%s: no result after %d s" % (x["mc"], limit))
        if d.returncode == 3:
            raise Broken("driver error:\n" + tail(err))
        self.raced(d.returncode, err, x)
        if d.returncode != 0:
            # The code under test took the process down.
            if not safe:
                self.explore(idx, x, safe=True)
                raise Broken("driver ended with %d, but not again:\n%s" % (d.returncode, tail(err)))
            try:
                pend = json.load(open(os.path.join(self.tmp, name + ".pending")))
            except (OSError, ValueError):
                raise Broken("driver ended with %d:\n%s" % (d.returncode, tail(err)))
            msg = open(err, errors="replace").read(2000)
            raise Violation("the process died", self.save(dict(kind="crash", behaviour=pend, note=msg)))
        res = json.load(open(out))
        m = res.get("mismatch")
        if m:
            if m["kind"] == "unreproduced" and not x.get("race"):
                raise Broken("mismatch that did not occur again: " + json.dumps(m)[:1500])
            o = m["beh"][m["step"]]
            raise Violation("%s in %s: %s" % (m["kind"], x["mc"], json.dumps(o)[:300]), self.save(dict(
                kind=m["kind"], model=x["mc"], consts={k: tla(v) for k, v in consts.items()}, variant=m["variant"], step=m["step"],
                got=m["got"], p=m["p"], note=m["note"], behaviour=m["beh"])))
        try:
            rc = t.wait(timeout=60)
        except subprocess.TimeoutExpired:
            raise Broken("TLC did not end")
        txt = open(log, errors="replace").read()
        if rc != 0 or ("No error has been found" not in txt and not x.get("simulate")):
            raise Broken("TLC on %s ended with %d:\n%s" % (x["mc"], rc, tail(log, 60)))
        g = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
        sim = re.findall(r"number of states generated: ([\d,]+)", txt)
        if g:
            gen, dis = (int(v.replace(",", "")) for v in g[-1])
        elif sim:
            gen = dis = int(sim[-1].replace(",", ""))
        else:
            raise Broken("no statistics from TLC:\n" + tail(log))
        if res["behaviours"] == 0:
            raise Broken("%s emitted no behaviour" % x["mc"])
        with self.lock:
            self.states += dis
            self.trans += gen
            self.behaviours += res["behaviours"]
            self.steps += res["steps"]
            for k, v in res["ops"].items():
                self.ops[k] = self.ops.get(k, 0) + v
            if res.get("sample"):
                self.samples.append(dict(model=x["mc"], behaviour=res["sample"]))
            self.detail.append(dict(model=x["mc"], constants={k: tla(v) for k, v in consts.items()}, exhaustive=not x.get("simulate"),
                                    distinct_states=dis, states_generated=gen, behaviours_replayed=res["behaviours"],
                                    steps_replayed=res["steps"], wall_s=round(time.time() - t0, 1)))

    # ---- 3: recording and trace validation -------------------------------
    def record(self, idx, k, x, safe=False):
        name = "t%d_%d%s" % (idx, k, "s" if safe else "")
        trace, err = (os.path.join(self.tmp, name + e) for e in (".ndjson", ".err"))
        seed = self.seed * 1000 + idx * 100 + k
        cmd = [self.drv[x["driver"], x.get("race", False)], "-mode", "record", "-out", trace, "-seed", str(seed), "-tier", self.tier,
               "-focus", x.get("focus", ""), "-scale", str(x.get("scale", {}).get(self.tier, 1))]
        if safe:
            cmd += ["-safe", os.path.join(self.tmp, name + ".pending")]
        with open(err, "w") as ef:
            d = self.popen(cmd, cwd=self.tmp, env=env(), stdout=subprocess.PIPE, stderr=ef, text=True)
        try:
            so, _ = d.communicate(timeout=x.get("limit", 600 if self.tier == "quick" else 3000))
        except subprocess.TimeoutExpired:
            raise Broken("recording does not end (%s)" % " ".join(cmd))
        if d.returncode == 3:
            raise Broken("driver error:\n" + tail(err))
        self.raced(d.returncode, err, x)
        if d.returncode != 0:
            if not safe:
                self.record(idx, k, x, safe=True)
                raise Broken("driver ended with %d, but not again:\n%s" % (d.returncode, tail(err)))
            try:
                pend = json.load(open(os.path.join(self.tmp, name + ".pending")))
            except (OSError, ValueError):
                raise Broken("driver ended with %d:\n%s" % (d.returncode, tail(err)))
            h = self.history(trace)
            raise Violation("the process died in " + json.dumps(pend)[:200], self.save(dict(
                kind="crash", seed=seed, history=h[-400:], step=pend, note=open(err, errors="replace").read(2000))))
        info = json.loads(so)
        self.validate(name, seed, trace, x, info)

    def history(self, trace, upto=None):
        h = []
        for n, line in enumerate(open(trace), 1):
            if upto is not None and n > upto:
                break
            try:
                o = json.loads(line)
            except ValueError:
                break
            if o.get("op") == "reset":
                h = []
            h.append(o)
        return h

    def validate(self, name, seed, trace, x, info):
        cfg, log = os.path.join(self.tmp, name + ".cfg"), os.path.join(self.tmp, name + ".log")
        with open(cfg, "w") as f:
            f.write("INIT TInit\nNEXT TNext\nVIEW TView\nPOSTCONDITION TAccepted\nCHECK_DEADLOCK FALSE\n")
            for kk, v in x.get("consts", {}).items():
                f.write("CONSTANT %s = %s\n" % (kk, tla(v)))
            f.write("CONSTANT CheckOps = %s\n" % tla(x["ops"]))
        with open(log, "w") as lf:
            t = self.popen(java(x.get("heap", 2500), os.path.join(self.tmp, name + ".meta"), cfg, x["trace"], 1),
                           cwd=self.tmp, env=env({"VERIF_TRACE": trace}), stdout=lf, stderr=subprocess.STDOUT)
        limit = x.get("limit", 600 if self.tier == "quick" else 3600)
        try:
            rc = t.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            raise Broken("validating a trace takes more than %d s" % limit)
        txt = open(log, errors="replace").read()
        m = re.search(r'<<"REJECTED", (\d+)>>', txt)
        if m and "Error:" not in txt.split('"REJECTED"')[0]:
            n = int(m.group(1))
            h = self.history(trace, n)
            raise Violation("recorded step rejected: " + json.dumps(h[-1])[:300], self.save(dict(
                kind="trace", trace_spec=x["trace"], seed=seed, rejected_line=n, got=h[-1], history=h)))
        v = re.search(r'<<"VALIDATED", (\d+), (\d+)>>', txt)
        if rc != 0 or not v or v.group(1) != v.group(2) or int(v.group(1)) != info["events"]:
            raise Broken("validating %s ended with %d:\n%s" % (x["trace"], rc, tail(log, 40)))
        with self.lock:
            self.traces += 1
            self.hists += info["histories"]
            self.events += info["events"]
            for kk, c in info["ops"].items():
                self.ops[kk] = self.ops.get(kk, 0) + c
            if len([s for s in self.samples if "trace_spec" in s]) < 2:
                h = []
                for line in open(trace):
                    h.append(json.loads(line))
                    if len(h) == 25:
                        break
                self.samples.append(dict(trace_spec=x["trace"], seed=seed, recorded=[compact(s) for s in h]))

    # ---- all of it --------------------------------------------------------
    def run(self):
        self.build()
        jobs = []
        for i, x in enumerate(self.c["explore"]):
            if self.tier == "quick" and x.get("thorough_only"):
                continue
            jobs.append(lambda i=i, x=x: self.explore(i, x))
        for i, x in enumerate(self.c["record"]):
            n = x.get("n", {"quick": 4, "thorough": 24})[self.tier]
            for k in range(n):
                jobs.append(lambda i=i, k=k, x=x: self.record(i, k, x))
        errs = []
        with ThreadPoolExecutor(max_workers=6) as ex:
            def go(f):
                if errs:
                    return
                try:
                    f()
                except Exception as e:  # noqa: BLE001
                    errs.append(e)
                    if isinstance(e, Violation):
                        self.killall()
            list(ex.map(go, jobs))
        for e in errs:
            if isinstance(e, Violation):
                raise e
        if errs:
            raise errs[0]
        missing = [o for o in self.c.get("must", []) if not self.ops.get(o)]
        if missing:
            raise Broken("steps never exercised: %s" % missing)

    def evidence(self, wall, violations, note=None):
        c = self.c
        cov = dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.behaviours + self.hists,
                   behaviours_replayed_on_impl=self.behaviours, steps_replayed_on_impl=self.steps,
                   recorded_histories_validated=self.hists, recorded_steps_validated=self.events, trace_files=self.traces,
                   steps_by_operation=dict(sorted(self.ops.items())), models=self.detail, samples=self.samples[:6])
        if note:
            cov["note"] = note
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, level=c.get("level", "model_checking"), coverage=cov,
                           assumptions=c.get("assumptions", []), wall_s=round(wall, 1), violations=violations), f, indent=1)


def compact(o):
    return {k: v for k, v in o.items() if k != "p" or v != 0}


def known(pid):
    """Known findings: lines 'finding: property=<id> match=<json> <what fails>'."""
    out = []
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append(m.group(2).strip())
    except OSError:
        pass
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    r = Run(pid, tier, seed)
    try:
        r.run()
        for k in known(pid):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        r.evidence(time.time() - t0, 0)
        print("OK property=%s tier=%s seed=%d states=%d behaviours=%d recorded_steps=%d wall=%.1fs" %
              (pid, tier, seed, r.states, r.behaviours, r.events, time.time() - t0))
        return 0
    except Violation as v:
        r.evidence(time.time() - t0, 1, v.what)
        print("property %s is violated: %s" % (pid, v.what))
        print("VIOLATION property=%s replay=%s" % (pid, v.replay))
        return 1
    except Exception as e:  # noqa: BLE001
        print("ERROR property=%s: %s" % (pid, e))
        return 2
    finally:
        r.killall()
        shutil.rmtree(r.tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
