"""Runs drivers, TLC and the bookkeeping that every check shares."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor, as_completed
from . import build
from .build import ToolError, VERIF

SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = min(8, os.cpu_count() or 8)


def tlc(module, cfg, meta, envv=None, workers=1, timeout=600, extra=(), xmx="3g"):
    """one TLC run -> (returncode, output)"""
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.update(envv or {})
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xmx" + xmx, "-Xss16m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "", 0))
    if not m:
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


class Violation(Exception):
    def __init__(self, prop, replay, text):
        super().__init__(text)
        self.prop, self.replay, self.text = prop, replay, text


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "build", "run", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "model_runs": [], "events": {}, "records_checked": 0, "driver_runs": []}
        self.violations = []
        self.known = []
        self.assumptions = []
        self._n = 0

    thorough = property(lambda s: s.tier == "thorough")

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------ models
    def model(self, module, cfg=None, workers=None, timeout=None, expect_error=None, simulate=None):
        """exhaustive (or simulated) check of the specification itself; a failure here is ours, not the code's"""
        cfg = cfg or module + ".cfg"
        extra = ["-coverage", "0"] if False else []
        if simulate:
            extra += ["-simulate", "num=%d" % simulate, "-depth", "60", "-seed", str(self.seed)]
        t = time.time()
        self._n += 1
        rc, out = tlc(module, cfg, os.path.join(self.work, "mc%d" % self._n), workers=workers or JOBS,
                      timeout=timeout or self.pick(300, 3600), extra=extra, xmx="8g")
        if rc != 0:
            raise ToolError("the model %s/%s does not satisfy its own properties (rc %d)\n%s" % (module, cfg, rc, out[-3000:]))
        g, d = stats(out)
        self.cov["states"] += d
        self.cov["transitions"] += g
        self.cov["model_runs"].append({"module": module, "cfg": cfg, "states": d, "transitions": g, "exhaustive": not simulate,
                                       "wall_s": round(time.time() - t, 1)})

    # ------------------------------------------------------------ conformance
    def drive(self, exe, args, out, limit):
        cmd = [exe] + [str(a) for a in args] + ["--out", out, "--limit", str(limit)]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit + 60, cwd=self.work)
        except subprocess.TimeoutExpired:
            raise ToolError("driver did not stop: " + " ".join(cmd))
        if r.returncode not in (0, 3, 4):
            tail = r.stdout.decode("utf-8", "replace")[-1500:]
            raise ToolError("driver failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), tail))
        return r.returncode

    def validate(self, module, trace, cfg=None):
        """None when the specification admits the trace, else the number (1-based) of the first record it refuses"""
        n = sum(1 for _ in open(trace))
        if n == 0:
            return None
        self._n += 1
        rc, out = tlc(module, cfg or module + ".cfg", trace + ".md", {"TRACE": trace}, timeout=self.pick(600, 3000))
        g, d = stats(out)
        m = re.search(r'<<"REJECTED", (\d+)', out)
        if rc == 0 and not m:
            return None, g, d, n
        if m:
            return int(m.group(1)), g, d, n
        if re.search(r"Invariant \w+ is violated", out):
            st = re.findall(r"^State (\d+):", out, re.M)
            if st:
                return max(1, int(st[-1]) - 1), g, d, n
        raise ToolError("TLC failed on %s (rc %d)\n%s" % (trace, rc, out[-3000:]))

    def run_of(self, trace, rec):
        """the lines of the run that record `rec' belongs to"""
        lines = open(trace).read().splitlines()
        start = 0
        for k in range(rec):
            if lines[k].startswith('{"e":"run"'):
                start = k
        end = rec
        while end < len(lines) and not lines[end].startswith('{"e":"run"'):
            end += 1
        return lines[start:end], rec - start

    def conform(self, driver, module, shards, cfg=None, limit=300, need=(), known=None):
        """shards: list of driver argument lists. Runs each, checks each trace against the specification."""
        exe = build.build_driver(driver)
        todo = []

        def one(k, args):
            tr = os.path.join(self.work, "%s%03d.jsonl" % (driver, k))
            rc = self.drive(exe, args, tr, limit)
            res = self.validate(module, tr, cfg)
            ev = {}
            runs = 0
            for line in open(tr):
                m = re.match(r'\{"e":"(\w+)"', line)
                if m:
                    ev[m.group(1)] = ev.get(m.group(1), 0) + 1
                    runs += m.group(1) == "run"
            return k, args, tr, rc, res, ev, runs

        t = time.time()
        bad = []
        runs_total = 0
        with ThreadPoolExecutor(JOBS) as ex:
            fs = [ex.submit(one, k, a) for k, a in enumerate(shards)]
            for f in as_completed(fs):
                k, args, tr, rc, res, ev, runs = f.result()
                if res is None:
                    raise ToolError("driver %s %s wrote no trace" % (driver, args))
                rec, g, d, n = res
                for e, c in ev.items():
                    self.cov["events"][e] = self.cov["events"].get(e, 0) + c
                self.cov["transitions"] += g
                self.cov["states"] += d
                self.cov["records_checked"] += n if rec is None else rec - 1
                runs_total += runs
                if rec is not None:
                    bad.append((k, args, tr, rec))
                elif len(self.cov["samples"]) < 3:
                    self.cov["samples"].append({"driver": driver, "args": [str(a) for a in args],
                                                "first_records": [json.loads(x) for x in open(tr).read().splitlines()[:3]]})
                if rec is None:
                    os.unlink(tr)
        self.cov["traces_validated_against_impl"] += runs_total
        self.cov["driver_runs"].append({"driver": driver, "spec": module, "shards": len(shards), "runs": runs_total,
                                        "rejected": len(bad), "wall_s": round(time.time() - t, 1)})
        for k, args, tr, rec in sorted(bad):
            self.report(driver, module, cfg, args, tr, rec, known)
        if not bad:
            for e in need:
                if not self.cov["events"].get(e):
                    raise ToolError("vacuous: no '%s' record in any trace of %s" % (e, driver))

    def report(self, driver, module, cfg, args, tr, rec, known):
        lines, at = self.run_of(tr, rec)
        rep = os.path.join(VERIF, "build", "replay")
        os.makedirs(rep, exist_ok=True)
        path = os.path.join(rep, "%s-%s-%s.jsonl" % (self.prop, driver, os.path.basename(tr)[len(driver):-6]))
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        again = self.validate(module, path, cfg)
        if again is None or again[0] is None:
            raise ToolError("the rejected run is accepted on its own: %s" % path)
        with open(path + ".txt", "w") as f:
            f.write("property %s\nspec %s\ndriver %s %s\nfirst refused record (line %d):\n%s\n" % (
                self.prop, module, driver, " ".join(map(str, args)), again[0], lines[again[0] - 1]))
        finding = known(lines, again[0]) if known else None
        if finding:
            if finding not in self.known:
                self.known.append(finding)
                print("KNOWN-FINDING: property=%s %s" % (self.prop, finding))
            return
        self.violations.append(path)
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("  %s refuses record %d: %s" % (module, again[0], lines[again[0] - 1][:600]))
        print("  driver: %s %s; %d records, the last before it:" % (driver, " ".join(map(str, args)), again[0]))
        for x in lines[max(0, again[0] - 30):again[0] - 1]:
            print("    " + x[:400])
        sys.stdout.flush()

    # ------------------------------------------------------------ the end
    def finish(self, level="model_checking"):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        if self.known:
            ev["coverage"]["known_findings"] = self.known
        if not self.cov["samples"]:
            self.cov["samples"].append({"note": "every trace was refused", "violations": self.violations})
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not self.violations:
            shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0
