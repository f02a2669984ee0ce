"""Machinery shared by the checks: builds the harness against /repo's working
tree, runs it, runs TLC on specifications and traces, and reports."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
# packages of /repo whose "sync" import is replaced for controlled scheduling
VSYNC_SKIP = ("/testing/", "/proto/", "/bazel/", "/cmd/")

GOENV = {
    "GOENV": "off", "GOWORK": "off", "GO111MODULE": "on", "GOPROXY": "off",
    "GOSUMDB": "off", "GOTOOLCHAIN": "local", "GOFLAGS": "-mod=mod",
}


class CheckError(Exception):
    """The check could not give an answer."""


class TLCResult:
    def __init__(self, name, rc, out):
        self.name, self.rc, self.out = name, rc, out
        self.bads, self.prints = [], []
        self.consumed = self.length = None
        self.states = self.distinct = 0
        for line in out.split("\n"):
            if line.startswith('"@@'):
                try:
                    s = json.loads(line)
                except ValueError:
                    s = line.strip('"')
                if s.startswith("@@BAD "):
                    _, n, why = s.split(" ", 2)
                    self.bads.append((int(n), why))
                elif s.startswith("@@CONSUMED "):
                    p = s.split()
                    self.consumed, self.length = int(p[1]), int(p[2])
                else:
                    self.prints.append(s)
            m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", line)
            if m:
                self.states = int(m.group(1).replace(",", ""))
                self.distinct = int(m.group(2).replace(",", ""))

    def tail(self, n=40):
        ls = [x for x in self.out.splitlines() if not x.startswith('"@@')]
        ls = [x for x in ls if not x.startswith(("Parsing file", "Semantic processing", "Linting of"))]
        return "\n".join(ls[-n:])


class Ctx:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.out = os.path.join(VERIF, "out", prop)
        if os.path.isdir(self.out):
            shutil.rmtree(self.out)
        os.makedirs(self.out)
        self.violations = []      # (case, line, reason, path)
        self.known_hit = []
        self.known = load_known(prop)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.traces_ok = 0
        self.samples = []

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def n(self, q, t):
        return t if self.thorough else q

    # ---- building -------------------------------------------------------
    def goenv(self, extra=None):
        e = dict(os.environ)
        e.update(GOENV)
        e.setdefault("HOME", "/root")
        e.pop("GOROOT", None)
        if extra:
            e.update(extra)
        return e

    def harness_dir(self):
        """The harness module; when VERIF_REPO is set, a copy that points at it."""
        src = os.path.join(VERIF, "harness")
        if REPO == "/repo":
            return src
        dst = os.path.join(self.out, "harness")
        if not os.path.isdir(dst):
            shutil.copytree(src, dst)
            p = os.path.join(dst, "go.mod")
            s = open(p).read().replace("=> /repo", "=> " + REPO)
            open(p, "w").write(s)
        return dst

    def overlay(self):
        """Overlay that replaces "sync" by vsync in /repo's packages."""
        p = os.path.join(self.out, "overlay.json")
        if os.path.exists(p):
            return p
        d = os.path.join(self.out, "overlay")
        os.makedirs(d)
        rep = {}
        for root, dirs, files in os.walk(REPO):
            dirs[:] = [x for x in dirs if x != ".git"]
            for f in files:
                full = os.path.join(root, f)
                rel = full[len(REPO):]
                if not f.endswith(".go") or f.endswith("_test.go") or f.endswith(".pb.go"):
                    continue
                if any(rel.startswith(x) for x in VSYNC_SKIP):
                    continue
                s = open(full).read()
                t = re.sub(r'(?m)^((?:import)?[ \t]*)"sync"([ \t]*(?://.*)?)$', r'\1sync "verif/harness/vsync"\2', s)
                t = re.sub(r'(?m)^((?:import)?[ \t]*[\w.]+[ \t]+)"sync"([ \t]*(?://.*)?)$', r'\1"verif/harness/vsync"\2', t)
                if t != s:
                    q = os.path.join(d, rel.strip("/").replace("/", "_"))
                    open(q, "w").write(t)
                    rep[full] = q
        json.dump({"Replace": rep}, open(p, "w"), indent=1)
        self.log("overlay covers", len(rep), "files")
        return p

    def build(self, pkg, race=False, vsync=False, timeout=700):
        out = os.path.join(self.out, "%s%s%s.test" % (pkg.replace("/", "_"), "-race" if race else "", "-vsync" if vsync else ""))
        cmd = ["go", "test", "-c", "-vet=off", "-o", out]
        if race:
            cmd.append("-race")
        if vsync:
            cmd += ["-overlay", self.overlay()]
        cmd.append("./" + pkg)
        t = time.time()
        r = subprocess.run(cmd, cwd=self.harness_dir(), env=self.goenv(), capture_output=True, text=True, timeout=timeout)
        if r.returncode != 0:
            raise CheckError("build of %s failed:\n%s" % (pkg, (r.stdout + r.stderr)[-4000:]))
        self.log("built %s in %.1fs" % (os.path.basename(out), time.time() - t))
        return out

    def gobuild(self, pkg, out, timeout=700):
        """Builds a command of /repo."""
        r = subprocess.run(["go", "build", "-o", out, pkg], cwd=REPO, env=self.goenv(), capture_output=True, text=True, timeout=timeout)
        if r.returncode != 0:
            raise CheckError("build of %s failed:\n%s" % (pkg, (r.stdout + r.stderr)[-4000:]))
        return out

    def run(self, binary, test, env=None, timeout=None, ok=(0,), dir=None):
        e = self.goenv({"VERIF_OUT": self.out, "VERIF_SEED": str(self.seed), "VERIF_TIER": self.tier})
        if env:
            e.update(env)
        e["TMPDIR"] = os.path.join(self.out, "tmp")   # log files of the code under test
        shutil.rmtree(e["TMPDIR"], ignore_errors=True)
        os.makedirs(e["TMPDIR"], exist_ok=True)
        timeout = timeout or self.n(300, 3000)
        t = time.time()
        cmd = [binary, "-test.run", "^%s$" % test, "-test.timeout", "%ds" % timeout, "-test.count", "1"]
        try:
            r = subprocess.run(cmd, cwd=dir or self.out, env=e, capture_output=True, text=True, timeout=timeout + 30, errors="replace")
        except subprocess.TimeoutExpired as x:
            raise CheckError("%s timed out: %s" % (test, x))
        txt = r.stdout + r.stderr
        shutil.rmtree(e["TMPDIR"], ignore_errors=True)
        self.log("ran %s: rc=%d in %.1fs" % (test, r.returncode, time.time() - t))
        if ok is not None and r.returncode not in ok:
            why = crash(txt)
            if why:
                case = {"e": "reset", "case": "crash of " + test}
                self.report(case, [case, {"e": "panic", "msg": why, "output": txt[-8000:]}],
                            "the code under test crashed or hung: " + why, "run")
            raise CheckError("%s failed (rc %d):\n%s" % (test, r.returncode, txt[-6000:]))
        r.txt = txt
        return r

    def stats(self, name):
        try:
            return json.load(open(os.path.join(self.out, name + ".stats.json")))
        except OSError:
            return {}

    # ---- TLC ------------------------------------------------------------
    def tlc(self, comp, module, cfg=None, env=None, workers=1, heap="3g", timeout=600, extra=(), depth_first=False):
        d = os.path.join(VERIF, "spec", comp)
        tag = "%s-%s-%s" % (comp, module, hashlib.md5(json.dumps([cfg, env, list(extra)], sort_keys=True).encode()).hexdigest()[:8])
        meta = os.path.join(self.out, "tlc-" + tag)
        os.makedirs(meta, exist_ok=True)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-DTLA-Library=" + os.path.join(VERIF, "spec", "lib") + ":" + os.path.join(VERIF, "spec", "cache")]
        if depth_first:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-checkpoint", "0",
                "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            with open(os.path.join(meta, "out.txt"), "w") as f:
                r = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC %s timed out after %ds" % (tag, timeout))
        out = open(os.path.join(meta, "out.txt"), errors="replace").read()
        res = TLCResult(tag, r.returncode, out)
        res.wall = time.time() - t
        shutil.rmtree(meta, ignore_errors=True)
        return res

    def model(self, comp, module, cfg=None, env=None, workers=6, heap="6g", timeout=800, extra=(), count=True):
        """Exhaustive check of a design model: must hold."""
        if count and os.environ.get("VERIF_DEV_SKIPMODEL"):   # set by mutrun.sh only
            return None
        r = self.tlc(comp, module, cfg, env, workers, heap, timeout, extra)
        self.log("model %s/%s: %d states, %d distinct, rc %d, %.1fs" % (module, cfg or module, r.states, r.distinct, r.rc, r.wall))
        if r.rc != 0:
            raise CheckError("model %s: TLC rc %d\n%s" % (module, r.rc, r.tail()))
        if count:
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.states
        return r

    def refuted(self, comp, module, cfg, env=None, workers=4, heap="4g", timeout=600):
        """A deliberately broken variant of a model: TLC must find the flaw
        (evidence that the model's properties are not vacuous)."""
        if os.environ.get("VERIF_DEV_SKIPMODEL"):
            return
        r = self.tlc(comp, module, cfg, env, workers, heap, timeout)
        if r.rc not in (11, 12, 13):
            raise CheckError("broken variant %s of %s was not refuted: rc %d\n%s" % (cfg, module, r.rc, r.tail()))
        self.log("model %s/%s: refuted as it must be (rc %d), %d states, %.1fs" % (module, cfg, r.rc, r.states, r.wall))
        self.cov["broken_variants_refuted"] = self.cov.get("broken_variants_refuted", 0) + 1

    def validate(self, comp, module, names, cfg=None, heap="3g", timeout=800, jobs=6, nondet=False, env=None, depth_first=False,
                 only=None):
        """Validates trace files against a trace specification."""
        files = []
        for n in names if isinstance(names, (list, tuple)) else [names]:
            i = 0
            while os.path.exists(os.path.join(self.out, "%s.%d.ndjson" % (n, i))):
                files.append(os.path.join(self.out, "%s.%d.ndjson" % (n, i)))
                i += 1
            if i == 0:
                raise CheckError("no trace " + n)
        files = [f for f in files if os.path.getsize(f) > 0]

        def one(f):
            e = {"TRACE": f}
            e.update(env or {})
            return f, self.tlc(comp, module, cfg, e, 1, heap, timeout, depth_first=depth_first)

        t = time.time()
        with cf.ThreadPoolExecutor(jobs) as ex:
            results = list(ex.map(one, files))
        for f, r in results:
            lines = open(f).read().rstrip("\n").split("\n")
            starts = [i for i, x in enumerate(lines) if is_reset(x)]
            if r.rc not in (0,) or r.consumed is None:
                raise CheckError("trace validation %s of %s: TLC rc %d\n%s" % (module, f, r.rc, r.tail()))
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.states
            if r.length != len(lines):
                raise CheckError("trace %s: %s lines read, %d written" % (f, r.length, len(lines)))
            bad = list(r.bads)
            if r.consumed < r.length:
                if not nondet:
                    raise CheckError("trace %s: no step for line %d: %s" % (f, r.consumed + 1, lines[r.consumed][:800]))
                bad.append((r.consumed + 1, "no step of the specification explains this event"))
            badcases = set()
            for (l, why) in bad:
                s = max([x for x in starts if x < l], default=0)
                if s in badcases:
                    continue
                badcases.add(s)
                if only and not only(why):
                    continue
                case = json.loads(lines[s])
                self.report(case, lines[s:l], why, module)
            done = len([s for s in starts if s < r.consumed])
            self.cov["traces_validated_against_impl"] += done
            if starts and len(self.samples) < 3:
                e = starts[1] if len(starts) > 1 else len(lines)
                self.samples.append([json.loads(x) for x in lines[starts[0]:min(e, starts[0] + 12)]])
        self.log("validated %d trace files with %s in %.1fs" % (len(files), module, time.time() - t))
        return results

    def race_run(self, binary, test, spec, timeout=600):
        """A free-running execution under the race detector; a report, a
        deadlock or a panic is an event no specification action allows."""
        r = self.run(binary, test, ok=None, timeout=timeout, env={"GORACE": "halt_on_error=1 exitcode=66"})
        if r.returncode == 0:
            return r
        why = None
        if "DATA RACE" in r.txt:
            why = "data race"
        elif "fatal error: concurrent map" in r.txt:
            why = "concurrent map access"
        elif r.returncode == 67 or "fatal error: all goroutines are asleep" in r.txt:
            why = "deadlock"
        elif r.returncode == 68:
            why = "wrong total"
        elif re.search(r"^panic: (?!test timed out)", r.txt, re.M) or "fatal error: sync" in r.txt:
            why = "panic"
        if why is None:
            raise CheckError("race run %s failed (rc %d): %s" % (test, r.returncode, r.txt[-3000:]))
        case = {"e": "reset", "case": "free-running " + test}
        self.report(case, [case, {"e": why, "output": r.txt[:8000]}], why + ": no action of the specification allows this event", spec)
        return r

    def histories(self, comp, module, cfg, name=None, **kw):
        """Operation histories printed by a generating model, one JSON per line."""
        r = self.model(comp, module, cfg=cfg, count=False, **kw)
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.states
        p = os.path.join(self.out, (name or cfg) + ".hist")
        seen = set()
        with open(p, "w") as f:
            for s in r.prints:
                if s.startswith("@@HIST ") and s not in seen:
                    seen.add(s)
                    f.write(s[7:] + "\n")
        if not seen:
            raise CheckError("model %s printed no history" % cfg)
        self.cov["generated_histories"] = self.cov.get("generated_histories", 0) + len(seen)
        return p

    # ---- verdicts -------------------------------------------------------
    def report(self, case, lines, why, module):
        desc = case.get("case", "") if isinstance(case, dict) else str(case)
        for k in self.known:
            if k["re"].search(desc + " :: " + why):
                self.known_hit.append((k, desc, why))
                return
        if len(self.violations) < 20:
            p = os.path.join(self.out, "violation-%d.ndjson" % len(self.violations))
            with open(p, "w") as f:
                f.write("\n".join(x if isinstance(x, str) else json.dumps(x) for x in lines) + "\n")
                f.write(json.dumps({"e": "rejected", "why": why, "by": module}) + "\n")
        else:
            p = self.violations[-1][3]
        self.violations.append((desc, lines[-1] if lines else "", why, p))
        if len(self.violations) <= 5:
            self.log("VIOLATION in case %s: %s\n      event: %s" % (desc[:200], why[:600], str(lines[-1] if lines else "")[:600]))

    def finish(self):
        for k in self.known:
            hits = [h for h in self.known_hit if h[0] is k]
            print("KNOWN-FINDING: property=%s %s (%d occurrences in this run)" % (self.prop, k["what"], len(hits)))
        cov = dict(self.cov)
        cov["samples"] = cov.get("samples") or self.samples[:3]
        if not cov["samples"]:
            cov["samples"] = ["(none)"]
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        # keep only what a reader needs
        for x in os.listdir(self.out):
            p = os.path.join(self.out, x)
            if x.endswith(".test") or x in ("overlay", "overlay.json", "harness"):
                if os.path.isdir(p):
                    shutil.rmtree(p)
                else:
                    os.remove(p)
            elif os.path.isfile(p) and os.path.getsize(p) > (64 << 20):
                os.remove(p)
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][3]), flush=True)
            return 1
        self.log("held: %d traces validated, %d states, %d transitions" % (
            cov.get("traces_validated_against_impl", 0), cov.get("states", 0), cov.get("transitions", 0)))
        return 0


def crash(txt):
    """The panic message if the process died inside the code under test."""
    if "panic: test timed out" in txt:
        # a call into the code under test that does not return
        for g in re.split(r"\n\n", txt[txt.index("panic: test timed out"):]):
            if "verif/harness/" not in g:
                continue
            for line in g.splitlines():
                if line.startswith("github.com/openconfig/gnmi/"):
                    return "does not terminate: " + line.split("(0x")[0]
                if line.startswith("verif/harness/") and not line.startswith("verif/harness/vsync"):
                    break
        return None
    if "panic: deadlock: main bubble goroutine has exited" in txt:
        # goroutines of a bubble that nothing can wake
        for g in re.split(r"\n\n", txt[txt.index("panic: deadlock: main bubble"):]):
            if "synctest bubble" not in g.split("\n")[0]:
                continue
            for line in g.splitlines():
                if line.startswith("github.com/openconfig/gnmi/"):
                    return "blocked for ever: " + line.split("(0x")[0]
        return None
    m = re.search(r"^(?:panic: |fatal error: (?:sync|concurrent map|all goroutines))[^\n]*", txt, re.M)
    if not m:
        return None
    g = re.search(r"^goroutine \d+ [^\n]*:\n(.*?)(?:\n\n|\Z)", txt[m.end():], re.M | re.S)
    if not g:
        return None
    for line in g.group(1).splitlines():
        if line.startswith(("github.com/openconfig/gnmi/", "created by github.com/openconfig/gnmi/")):
            return m.group(0)
        if line.startswith("verif/harness/") and not line.startswith("verif/harness/vsync"):
            return None
    return None


def is_reset(line):
    return '"e":"reset"' in line


def load_known(prop):
    """Open findings: lines 'property=<id> match=/regex/ <what fails>'."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"property=(\w+) match=/(.*?)/ (.*)$", line.strip())
            if m and m.group(1) == prop:
                res.append({"re": re.compile(m.group(2)), "what": m.group(3)})
    return res
