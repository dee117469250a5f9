"""Common machinery of the checks: build a harness from /repo's working tree, let TLC check a
specification and generate behaviours from it, drive the real code through them, and let TLC decide
whether what the real code did is a behaviour of the specification."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
CORES = 8


class ModelError(Exception):
    """the machinery failed: not a verdict about mito"""


CXX = "g++-14"
INCLUDES = [
    "-I/repo/lib",
    "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include",
    "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
    "-isystem", "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/include",
    "-isystem", "/opt/pyre/include",
]
PYRE_LIBS = ["-L/opt/pyre/lib", "-Wl,-rpath,/opt/pyre/lib", "-lpyre", "-ljournal"]


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf_%s_" % prop, dir="/tmp")
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.parts = []
        self.assumptions = []
        self.violations = []
        self.known = []
        self.exhaustive = False
        self._n = 0

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- build
    def compile(self, source, extra=(), libs=(), opt="-O0", out=None, cwd=None):
        """compile one harness against /repo's current working tree"""
        self._n += 1
        src = source if os.path.isabs(source) else os.path.join(HARNESS, source)
        exe = out or os.path.join(self.work, "h%d_%s" % (self._n, os.path.basename(src)[:-3]))
        cmd = [CXX, "-std=c++23", opt, "-g1", "-w", "-DMITO_CORE", "-DWITH_MPI", "-DWITH_PETSC",
               "-DWITH_METIS", "-include", os.path.join(HARNESS, "mito_pyre_shim.h"),
               "-I" + HARNESS, *INCLUDES, *extra, src, "-o", exe, *PYRE_LIBS, *libs]
        t = time.time()
        cached = self._cache_key(cmd, src)
        if cached and os.path.exists(cached):
            shutil.copy2(cached, exe)
            return exe
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-6000:])
            raise ModelError("harness %s does not compile against /repo" % source)
        self.log("built %s in %.1fs" % (os.path.basename(src), time.time() - t))
        if cached:
            shutil.copy2(exe, cached)
        return exe

    def compile_all(self, builds):
        """several harnesses at once: a list of (source, extra flags)"""
        for _ in builds:
            self._n += 1
        outs = [os.path.join(self.work, "b%d_%d" % (self._n, i)) for i in range(len(builds))]
        with cf.ThreadPoolExecutor(CORES) as ex:
            return list(ex.map(lambda b: self.compile(b[0][0], extra=b[0][1], out=b[1],
                                                      libs=b[0][2] if len(b[0]) > 2 else ()),
                               list(zip(builds, outs))))

    def generated(self, main, header, cases, write, extra=(), libs=(), units=CORES):
        """a harness of straight-line code, one function per case, built in several units"""
        d = os.path.join(self.work, "gen%d" % self._n)
        os.makedirs(d)
        units = max(1, min(units, len(cases)))
        jobs = [(main, os.path.join(d, "main.o"))]
        for u in range(units):
            src = os.path.join(d, "u%d.cc" % u)
            with open(src, "w") as f:
                f.write('#include "%s"\n' % header)
                for k in range(u, len(cases), units):
                    f.write(write(k, cases[k]))
            jobs.append((src, os.path.join(d, "u%d.o" % u)))
        with cf.ThreadPoolExecutor(CORES) as ex:
            objs = list(ex.map(lambda j: self.compile(j[0], extra=[*extra, "-c"], out=j[1]), jobs))
        exe = os.path.join(d, "exe")
        r = subprocess.run([CXX, *objs, "-o", exe, *PYRE_LIBS, *libs], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-3000:])
            raise ModelError("the generated harness does not link")
        return exe

    def _cache_key(self, cmd, src):
        """development only: VF_CACHE names a directory of built harnesses"""
        d = os.environ.get("VF_CACHE")
        if not d:
            return None
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha256()
        h.update(" ".join(c for c in cmd if not c.startswith(self.work)).encode())
        for root in (os.path.join(REPO, "lib"), HARNESS):
            for base, dirs, files in sorted(os.walk(root)):
                dirs.sort()
                for f in sorted(files):
                    if root == HARNESS and not (f.endswith(".h")):
                        continue
                    h.update(f.encode())
                    with open(os.path.join(base, f), "rb") as fh:
                        h.update(fh.read())
        with open(src, "rb") as fh:
            h.update(fh.read())
        return os.path.join(d, h.hexdigest()[:32])

    # ---------------------------------------------------------------- TLC
    def _tlc(self, module, cfg_text, extra=(), env=None, timeout=600, heap="3g", workers="1",
             tag="tlc"):
        self._n += 1
        d = os.path.join(self.work, "%s%d" % (tag, self._n))
        os.makedirs(d)
        cfg = os.path.join(d, module + ".cfg")
        with open(cfg, "w") as f:
            f.write(cfg_text)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update(env)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == "1"
               else "-XX:+UseParallelGC",
               "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
               "-DTLA-Library=" + SPEC,
               "tlc2.TLC", "-config", cfg, "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-nowarning", "-workers", workers, *extra, os.path.join(SPEC, module + ".tla")]
        out = os.path.join(d, "out.txt")
        with open(out, "w") as fo:
            try:
                r = subprocess.run(cmd, stdout=fo, stderr=subprocess.STDOUT, env=e, cwd=d,
                                   timeout=timeout)
                code = r.returncode
            except subprocess.TimeoutExpired:
                code = -1
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        with open(out, errors="replace") as f:
            text = f.read()
        return code, text

    @staticmethod
    def _stats(text):
        m = re.findall(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found", text)
        if not m:
            m2 = re.findall(r"The number of states generated: (\d[\d,]*)", text)
            return (int(m2[-1].replace(",", "")) if m2 else 0), 0
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))

    @staticmethod
    def _paths(text):
        """the operation paths printed by EmitEdge/EmitRun"""
        res = []
        for line in text.splitlines():
            if line.startswith('"@'):
                res.append(json.loads(json.loads(line)[1:]))
        return res

    def model(self, module, cfg, label, must_cover=(), timeout=600, workers="1", heap="6g",
              extra=(), env=None, emits=True):
        """check a bounded instance exhaustively; the invariants of the cfg must hold on the
        specification itself (a failure is a defect of the specification, not of mito)"""
        t = time.time()
        code, text = self._tlc(module, cfg, extra=("-coverage", "1", *extra) if must_cover else extra,
                               timeout=timeout, workers=workers, heap=heap, tag="mc", env=env)
        if code != 0:
            show(text)
            raise ModelError("TLC on %s ended with %s" % (module, code))
        g, d = self._stats(text)
        self.states += d
        self.transitions += g
        for a in must_cover:
            m = re.findall(r"<%s line .*?>: (\d+):(\d+)" % re.escape(a), text)
            if not m or max(int(x[1]) for x in m) == 0:
                raise ModelError("%s: action %s was never taken" % (module, a))
        paths = self._paths(text) if emits else []
        self.log("%s: %d states, %d transitions, %d paths (%.1fs)"
                 % (label, d, g, len(paths), time.time() - t))
        self.parts.append({"part": label, "kind": "exhaustive model", "states": d, "transitions": g,
                           "behaviours_emitted": len(paths)})
        return paths

    def simulate(self, module, cfg, label, num, depth, timeout=600, env=None, procs=1, per_prefix=2):
        """random behaviours of the specification"""
        t = time.time()

        def one(k):
            return self._tlc(module, cfg, extra=(
                "-simulate", "num=%d" % max(1, num // procs), "-depth", str(depth + 2),
                "-seed", str(self.seed * 1000 + 17 * k + 1)), timeout=timeout, tag="sim", env=env)
        paths = []
        gen = 0
        with cf.ThreadPoolExecutor(procs) as ex:
            for code, text in ex.map(one, range(procs)):
                if code != 0:
                    show(text)
                    raise ModelError("TLC -simulate on %s ended with %s" % (module, code))
                paths += self._paths(text)
                m = re.findall(r"The number of states generated: (\d[\d,]*)", text)
                gen += int(m[-1].replace(",", "")) if m else 0
        # the simulation prints every successor of the last but one state
        uniq = []
        seen = {}
        for p in paths:
            k = json.dumps(p)
            pre = json.dumps(p[:-1])
            if k not in seen and seen.get(pre, 0) < per_prefix:
                seen[k] = 1
                seen[pre] = seen.get(pre, 0) + 1
                uniq.append(p)
        self.transitions += gen
        self.states += gen
        self.log("%s: %d random behaviours, %d steps (%.1fs)" % (label, len(uniq), gen, time.time() - t))
        self.parts.append({"part": label, "kind": "simulation", "behaviours_emitted": len(uniq),
                           "steps": gen})
        if not uniq:
            raise ModelError("%s: the simulation emitted no behaviour" % module)
        return uniq

    # ---------------------------------------------------------------- harness
    def drive(self, exe, cases, env=None, procs=CORES, timeout=900, args=(), first=0):
        """run the cases (lists of operation lines) through the real code; returns, per case, the
        list of events recorded"""
        cases = list(cases)
        procs = max(1, min(procs, len(cases)))
        e = dict(os.environ)
        e.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1",
                  "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1"})
        if env:
            e.update(env)
        chunks = [list(range(k, len(cases), procs)) for k in range(procs)]

        def one(idx):
            text = "".join("case %d\n%s" % (i + first, "".join(o + "\n" for o in cases[i])) for i in idx)
            for attempt in range(3):
                try:
                    r = subprocess.run([exe, *args], input=text.encode(), stdout=subprocess.PIPE,
                                       stderr=subprocess.DEVNULL, env=e, timeout=timeout,
                                       cwd=self.work)
                except subprocess.TimeoutExpired:
                    raise ModelError("harness %s ran out of its %d s" % (exe, timeout))
                if r.returncode == 0:
                    return r.stdout.decode(errors="replace")
            raise ModelError("harness %s ended with %s" % (exe, r.returncode))
        res = {}
        with cf.ThreadPoolExecutor(procs) as ex:
            for text in ex.map(one, chunks):
                cur = None
                for line in text.splitlines():
                    ev = json.loads(line)
                    if ev.get("op") == "Reset":
                        cur = res.setdefault(ev["case"] - first, [])
                    else:
                        cur.append(ev)
        if set(res) != set(range(len(cases))):
            raise ModelError("the harness recorded %d of %d cases" % (len(res), len(cases)))
        return [res[i] for i in range(len(cases))]

    # ---------------------------------------------------------------- trace validation
    def _validate_chunk(self, module, cfg, events, env, timeout, heap):
        self._n += 1
        path = os.path.join(self.work, "trace%d_%d.ndjson" % (self._n, random.getrandbits(40)))
        with open(path, "w") as f:
            for ev in events:
                f.write(json.dumps(ev, separators=(",", ":")) + "\n")
        e = {"TRACE": path}
        if env:
            e.update(env)
        code, text = self._tlc(module, cfg, env=e, timeout=timeout, heap=heap, tag="tr")
        os.unlink(path)
        g, d = self._stats(text)
        if code == 0:
            return None, g, text
        m = re.findall(r"The depth of the complete state graph search is (\d+)", text)
        if "postcondition" in text.lower() and m:
            depth = int(m[-1])
            if depth - 1 < len(events):
                return depth - 1, g, text
        if re.search(r"Error: .*(Attempted to|evaluat|The first argument of|is not in the domain|CHOOSE)",
                     text, re.S) and "OutOfMemory" not in text and "StackOverflow" not in text:
            # an observation the specification cannot even interpret: the event after the longest
            # prefix it could
            m = re.findall(r"\bl = (\d+)", text)
            at = max((int(x) for x in m), default=1) - 1
            return min(at, len(events) - 1), g, text
        show(text)
        raise ModelError("TLC on %s ended with %s" % (module, code))

    def validate(self, module, cfg, runs, label, header=None, env=None, procs=CORES, timeout=800,
                 heap="3g", rerun=None):
        """runs: list of (case, events). Every event list must be a behaviour of the trace
        specification. Returns the list of rejected (case index, event index)."""
        t = time.time()
        reset = header or {"op": "Reset"}
        # balance the chunks by the number of events
        order = sorted(range(len(runs)), key=lambda i: -len(runs[i][1]))
        procs = max(1, min(procs, len(runs)))
        buckets = [[] for _ in range(procs)]
        load = [0] * procs
        for i in order:
            k = load.index(min(load))
            buckets[k].append(i)
            load[k] += len(runs[i][1]) + 1
        rejected = []

        def one(bucket):
            todo = list(bucket)
            rej = []
            gen = 0
            while todo:
                events = []
                where = []
                for i in todo:
                    r = reset if not callable(reset) else reset(runs[i][0])
                    events.append(r)
                    where.append((i, -1))
                    for j, ev in enumerate(runs[i][1]):
                        events.append(ev)
                        where.append((i, j))
                at, g, text = self._validate_chunk(module, cfg, events, env, timeout, heap)
                gen += g
                if at is None:
                    return rej, gen
                i, j = where[at]
                rej.append((i, j, text))
                if len(rej) >= 1:
                    return rej, gen
                todo = todo[todo.index(i) + 1:]
            return rej, gen
        with cf.ThreadPoolExecutor(procs) as ex:
            for rej, gen in ex.map(one, [b for b in buckets if b]):
                self.states += gen
                self.transitions += gen
                rejected += rej
        nev = sum(len(r[1]) for r in runs)
        self.traces += len(runs) - len(rejected)
        self.events += nev
        self.log("%s: %d traces, %d events validated by %s, %d rejected (%.1fs)"
                 % (label, len(runs), nev, module, len(rejected), time.time() - t))
        self.parts.append({"part": label, "kind": "trace validation", "traces": len(runs),
                           "events": nev, "rejected": len(rejected)})
        if runs and len(self.samples) < 8:
            mid = runs[len(runs) // 2]
            self.samples.append({"part": label, "case": mid[0][:20],
                                 "last_event": mid[1][-1] if mid[1] else None})
        return rejected

    def conform(self, exe, cases, module, cfg, label, project=None, header=None, env=None,
                harness_env=None, expect_known=None, args=(), drive_procs=CORES):
        """drive the cases and validate what the code did; a rejection is reported after the case
        alone, run again, is rejected again"""
        cases = [c if isinstance(c[0] if c else "", str) else [op_line(o) for o in c] for c in cases]
        project = project or (lambda ev: ev)
        recorded = self.drive(exe, cases, env=harness_env, args=args, procs=drive_procs)
        runs = [(c, [project(e) for e in ev]) for c, ev in zip(cases, recorded)]
        rejected = self.validate(module, cfg, runs, label, header=header, env=env)
        rejected.sort(key=lambda r: (r[1], r[0]))
        for i, j, text in rejected[:2]:
            case = cases[i]
            def alone(events):
                return self._validate_chunk(
                    module, cfg,
                    [header(case) if callable(header) else (header or {"op": "Reset"})] + events,
                    env, 300, "3g")
            # what depends on addresses, or on what the process did before, may not show again
            for attempt in range(4):
                ev2 = [project(e) for e in self.drive(exe, [case], env=harness_env, args=args, first=i)[0]]
                r2, _, text2 = alone(ev2)
                if r2 is not None:
                    break
            else:
                ev2 = runs[i][1]
                r2, _, text2 = alone(ev2)
                # recorded it is, all the same, unless a loaded machine was too slow
                if r2 is None or any(e.get("op") == "Crash" and e.get("signal") == 14 for e in ev2):
                    raise ModelError("%s: a rejection did not repeat (case %s)" % (label, case))
                self.log("%s: the rejected execution did not repeat" % label)
            at = r2 - 1
            self.violation(label, case, ev2, at, text2, module)
        return recorded

    def violation(self, label, case, events, at, text, module):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s_%d.json" % (self.prop, len(self.violations) + 1))
        bad = events[at] if 0 <= at < len(events) else None
        with open(path, "w") as f:
            json.dump({"property": self.prop, "part": label, "trace_spec": module,
                       "operations": case, "accepted_prefix": max(at, 0), "rejected_event": bad,
                       "events": events[:at + 1] if at >= 0 else events[:1],
                       "tlc": "\n".join(l for l in text.splitlines() if not l.startswith('"@'))[-3000:]},
                      f, indent=1)
        self.violations.append(path)
        print("rejected by %s after %d operations: %s" % (module, at, json.dumps(bad)[:600]))
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)

    def known_finding(self, text):
        self.known.append(text)
        print("KNOWN-FINDING: property=%s %s" % (self.prop, text), flush=True)

    # ---------------------------------------------------------------- evidence
    def finish(self):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "evaluations": self.events,
                "exhaustive": False,
                "samples": self.samples[:8],
                "parts": self.parts,
            },
            "assumptions": self.assumptions,
            "known_findings": self.known,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        self.log("%d violation(s), %d traces, %d events" % (len(self.violations), self.traces, self.events))
        return 1 if self.violations else 0


def show(text):
    """what TLC complains about (once: parallel runs tend to have one complaint)"""
    if getattr(show, "done", False):
        return
    show.done = True
    text = "\n".join(l for l in text.splitlines() if not l.startswith('"@'))
    at = text.find("Semantic errors:")
    if at < 0:
        at = text.find("Parse Error")
    if at < 0:
        at = text.find("Error:")
    if at < 0:
        at = text.find("***")
    sys.stdout.write(text[max(at, 0):][:2500] + "\n")
    sys.stdout.flush()


def op_line(op):
    """an operation of a specification path as a harness line"""
    return " ".join(flat(x) for x in op)


def flat(x):
    if isinstance(x, list):
        return " ".join(flat(y) for y in x)
    if isinstance(x, bool):
        return "1" if x else "0"
    return str(x)


def cfg(spec="", constants=None, invariants=(), properties=(), view=None, action_constraint=None,
        constraint=None, postcondition=None, deadlock=False):
    t = []
    if spec:
        t.append("SPECIFICATION " + spec)
    if constants:
        t.append("CONSTANTS")
        for k, v in constants.items():
            t.append("  %s %s %s" % (k, "<-" if isinstance(v, str) and v.startswith("<-") else "=",
                                     v[2:] if isinstance(v, str) and v.startswith("<-") else v))
    for i in invariants:
        t.append("INVARIANT " + i)
    for i in properties:
        t.append("PROPERTY " + i)
    if view:
        t.append("VIEW " + view)
    if action_constraint:
        t.append("ACTION_CONSTRAINT " + action_constraint)
    if constraint:
        t.append("CONSTRAINT " + constraint)
    if postcondition:
        t.append("POSTCONDITION " + postcondition)
    t.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    return "\n".join(t) + "\n"


def main(checks):
    if len(sys.argv) < 2 or sys.argv[1] not in checks:
        print("usage: check <%s>" % "|".join(sorted(checks)))
        return 2
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    c = Check(sys.argv[1])
    try:
        checks[sys.argv[1]](c)
        return c.finish()
    except ModelError as e:
        print("CHECK-ERROR:", e, flush=True)
        # a violation already confirmed on the real code stands
        if c.violations:
            c.finish()
            return 1
        shutil.rmtree(c.work, ignore_errors=True)
        return 3
