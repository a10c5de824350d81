"""Shared machinery of the checks: staging /repo, running TLC, running drivers, verdicts, evidence.

A check = (1) TLC on the design specification, (2) behaviours generated by TLC replayed into the real code,
(3) traces recorded from the real code judged by TLC with the same operators.  Python never decides a property:
it stages the code, drives it, records what the public API showed, and reports what TLC said.
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_DEV_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"


class MachineryError(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf_%s_" % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.behaviours = 0
        self.samples = []
        self.models = []
        self.bad = []            # (trace name, event index, clause, event, whole trace)
        self.assumptions = []
        self._staged = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- staging
    def stage(self):
        """A fresh copy of /repo's working tree, in the layout /opt/vp/test.sh gives the tests."""
        if self._staged:
            return self._staged
        dst = os.path.join(self.work, "repo")
        os.mkdir(dst)
        tar = subprocess.Popen(
            ["tar", "-C", REPO, "--exclude=./.git", "--exclude=__pycache__", "--exclude=./docs", "-cf", "-", "."],
            stdout=subprocess.PIPE)
        subprocess.run(["tar", "-C", dst, "-xf", "-"], stdin=tar.stdout, check=True)
        if tar.wait() != 0:
            raise MachineryError("could not copy /repo")
        g = os.path.join(dst, "demod/datasets/GermanTOU")
        os.makedirs(os.path.join(g, "raw_data"), exist_ok=True)
        for z in glob.glob(os.path.join(g, "parsed_data", "*.zip")):
            t = os.path.join(g, "raw_data", os.path.basename(z))
            if not os.path.exists(t):
                shutil.copy(z, t)
        # importing the simulators opens datasets whose raw files are downloaded: empty stand-ins, never read
        for f in ("RenewablesNinja/raw_data/DE_population.csv", "Germany/raw_data/data_v0.1.xlsx",
                  "Germany/raw_data/data_vBottaccioli.xlsx",
                  "CREST/raw_data/CREST_Demand_Model_v2.2.xlsm", "CREST/raw_data/CREST_Demand_Model_v2.3.3.xlsm"):
            t = os.path.join(dst, "demod/datasets", f)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            if not os.path.exists(t):
                open(t, "w").close()
        # importing creates folders; once, so that drivers started together do not race for them (errors show in the drivers)
        try:
            subprocess.run([PY, "-c", "import demod.simulators.load_simulators"], cwd=dst, timeout=120,
                           env=dict(os.environ, PYTHONPATH=dst), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            pass
        self._staged = dst
        return dst

    # ---------------------------------------------------------------- driver
    def drive(self, driver, inp=None, out="trace.json", timeout=700, jobs=None):
        """Run drivers/<driver>.py in the staged tree. It reads a JSON input and writes a JSON list of traces.

        jobs: optional list of inputs, run in parallel; the traces are concatenated."""
        repo = self.stage()
        inputs = jobs if jobs is not None else [inp]
        procs = []
        res = []
        def start(i, x):
            fi = os.path.join(self.work, "%s.%d.in.json" % (driver, i))
            fo = os.path.join(self.work, "%s.%d.out.json" % (driver, i))
            d = {"seed": self.seed, "tier": self.tier, "input": x, "out": fo, "job": i}
            json.dump(d, open(fi, "w"))
            env = {
                "PATH": os.environ.get("PATH", ""), "HOME": self.work, "LANG": "C.UTF-8",
                "PYTHONPATH": repo + ":" + os.path.join(VERIF, "drivers"),
                "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "TZ": "UTC",
                "MPLBACKEND": "Agg", "MPLCONFIGDIR": os.path.join(self.work, "mpl"),
                "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
            }
            lo = open(os.path.join(self.work, "%s.%d.log" % (driver, i)), "w")
            p = subprocess.Popen([PY, "-W", "ignore", os.path.join(VERIF, "drivers", driver + ".py"), fi],
                                 cwd=repo, env=env, stdout=lo, stderr=subprocess.STDOUT)
            return (p, fo, lo.name)
        pend = list(enumerate(inputs))
        running = []
        end = time.time() + timeout
        outs = [None] * len(inputs)
        while pend or running:
            while pend and len(running) < 8:
                i, x = pend.pop(0)
                running.append((i,) + start(i, x))
            for r in list(running):
                i, p, fo, lo = r
                if p.poll() is not None:
                    running.remove(r)
                    if p.returncode != 0 or not os.path.exists(fo):
                        for q in running:
                            q[1].kill()
                        raise MachineryError("driver %s failed (%s):\n%s" % (
                            driver, p.returncode, open(lo).read()[-4000:]))
                    outs[i] = json.load(open(fo))
            if time.time() > end:
                for q in running:
                    q[1].kill()
                raise MachineryError("driver %s timed out" % driver)
            time.sleep(0.02)
        for o in outs:
            res.extend(o)
        return res

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=4, extra=(), timeout=800, mem="4g"):
        md = tempfile.mkdtemp(prefix="tlc_", dir=self.work)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-Dfile.encoding=UTF-8",
               "-Djava.io.tmpdir=" + md, "-cp", JARS,
               "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", md,
               "-deadlock", "-config", cfg] + list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        lo = os.path.join(md, "out.txt")
        with open(lo, "w") as f:
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise MachineryError("TLC timed out on %s/%s" % (module, cfg))
        out = open(lo, errors="replace").read()
        st = re.findall(r"^(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct states found", out, re.M)
        gen, dist = (0, 0)
        if st:
            gen, dist = (int(x.replace(",", "")) for x in st[-1])
        shutil.rmtree(md, ignore_errors=True)
        return rc, out, gen, dist

    def model(self, module, cfg=None, workers=8, timeout=800, extra=(), min_states=1):
        """Exhaustive model checking of a design specification: an invariant violation here means the design as
        specified is wrong, which is a failure of this machinery (the code is judged by the conformance steps)."""
        cfg = cfg or module + ".cfg"
        rc, out, gen, dist = self.tlc(module, cfg, workers=workers, timeout=timeout,
                                      extra=list(extra) + ["-coverage", "1"])
        if rc != 0 or "No error has been found" not in out:
            raise MachineryError("model %s (%s) failed:\n%s" % (module, cfg, out[-6000:]))
        if dist < min_states:
            raise MachineryError("model %s: only %d states" % (module, dist))
        # vacuity guard: no action of the design may be dead
        dead = sorted(set(re.findall(r"^<(\w+) line [^>]*>: 0:0", out, re.M)))
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "cfg": cfg, "distinct_states": dist, "states_generated": gen,
                            "actions_never_taken": dead})
        if dead:
            raise MachineryError("model %s: actions never taken: %s" % (module, dead))
        return out

    def behaviours_from(self, module, cfg, timeout=800, extra=(), workers=8, limit=None, env=None):
        """Behaviours printed by a generator configuration as PrintT(<<"BEH", ToJson(..)>>)."""
        rc, out, gen, dist = self.tlc(module, cfg, workers=workers, timeout=timeout, extra=extra, env=env)
        ok = rc == 0 or "-simulate" in extra
        if not ok or "Error:" in out:
            raise MachineryError("generator %s (%s) failed:\n%s" % (module, cfg, out[-6000:]))
        beh = []
        for m in re.finditer(r'^<<"BEH", (".*")>>$', out, re.M):
            beh.append(json.loads(json.loads(m.group(1))))
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "cfg": cfg, "distinct_states": dist, "states_generated": gen,
                            "behaviours": len(beh)})
        if not beh:
            raise MachineryError("generator %s produced nothing:\n%s" % (module, out[-3000:]))
        if limit and len(beh) > limit:
            import random
            random.Random(self.seed).shuffle(beh)
            beh = beh[:limit]
        self.behaviours += len(beh)
        return beh

    def judge(self, module, traces, cfg=None, workers=4, timeout=800, mem="6g", collect=True, chunk=60000,
              only=None):
        """TLC judges recorded traces. Verdicts are total: each <<"BAD", t, l, clauses>> line names trace, event,
        clauses. Every event of every trace must have been consumed.
        only: the clauses this property answers for (another property answers for the rest)."""
        cfg = cfg or module + ".cfg"
        bad = []
        i = 0
        groups = []
        cur, n = [], 0
        for t in traces:
            if cur and n + len(t["ev"]) > chunk:
                groups.append(cur)
                cur, n = [], 0
            cur.append(t)
            n += len(t["ev"])
        if cur:
            groups.append(cur)
        for g in groups:
            i += 1
            path = os.path.join(self.work, "%s.%d.traces.json" % (module, i))
            json.dump(g, open(path, "w"))
            rc, out, gen, dist = self.tlc(module, cfg, env={"TRACE_FILE": path}, workers=workers, timeout=timeout,
                                          mem=mem)
            tries = 0
            while rc != 0 and "when TLC was evaluating" in out and tries < 8:
                # an event the specification cannot even be evaluated on (a number that is not finite, say): no
                # behaviour of the specification shows it.  It is reported, and the rest is judged without it.
                st = re.findall(r"^/\\ t = (\d+)$", out, re.M), re.findall(r"^/\\ l = (\d+)$", out, re.M)
                if not st[0] or not st[1]:
                    break
                k, ln = int(st[0][-1]) - 1, int(st[1][-1])
                tr = g[k]
                bad.append((tr["name"], ln + 1, ["outside_the_specification"], tr["ev"][ln], tr))
                g = list(g)
                g[k] = dict(tr, ev=tr["ev"][:ln])
                tries += 1
                json.dump(g, open(path, "w"))
                rc, out, gen, dist = self.tlc(module, cfg, env={"TRACE_FILE": path}, workers=workers, timeout=timeout,
                                              mem=mem)
            if tries == 8 and rc != 0 and "when TLC was evaluating" in out:
                continue
            want = sum(len(t["ev"]) + 1 for t in g)
            if rc != 0 or "No error has been found" not in out or dist != want:
                raise MachineryError("trace judge %s failed (rc %s, %d states of %d):\n%s" % (
                    module, rc, dist, want, out[-6000:]))
            seen = set()
            for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>', out):
                k = (int(m.group(1)), int(m.group(2)))
                if k in seen:
                    continue
                seen.add(k)
                clauses = re.findall(r'"([^"]*)"', m.group(3))
                if only is not None:
                    clauses = [c for c in clauses if c in only]
                    if not clauses:
                        continue
                t = g[k[0] - 1]
                bad.append((t["name"], k[1], sorted(clauses), t["ev"][k[1] - 1], t))
            if collect:
                self.states += dist
                self.transitions += gen
                self.traces += len(g)
                self.events += sum(len(t["ev"]) for t in g)
        if collect:
            self.models.append({"module": module, "cfg": cfg, "traces": len(traces),
                                "events": sum(len(t["ev"]) for t in traces)})
            for t in traces[:1] + traces[-1:]:
                self.samples.append({"module": module, "trace": t["name"], "cfg": t.get("cfg"),
                                     "events": t["ev"][:3]})
            self.bad.extend((module,) + b for b in bad)
        return bad


def short(x, depth=0):
    """A sample cut to a readable size."""
    if isinstance(x, dict):
        return {k: short(v, depth + 1) for k, v in list(x.items())[:24]}
    if isinstance(x, list):
        return [short(v, depth + 1) for v in x[:6]] + (["... %d more" % (len(x) - 6)] if len(x) > 6 else []) if depth < 6 else "..."
    return x[:200] if isinstance(x, str) else x


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("fixed:"):
                d = json.loads(line)
                if d["property"] == prop and d.get("status") != "fixed":
                    res.append(d)
    return res


def finish(ctx, level="model_checking"):
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    known = known_findings(ctx.prop)
    new, found = [], {}
    for b in ctx.bad:
        module, name, l, clauses, e, t = b
        rest = []
        for c in clauses:
            hit = None
            for k in known:
                if re.fullmatch(k["trace"], name) and c in k["clauses"]:
                    hit = k
            if hit:
                found.setdefault(hit["id"], (hit, []))[1].append((name, l, c))
            else:
                rest.append(c)
        if rest:
            new.append((module, name, l, rest, e, t))
    for k in known:
        if k["id"] in found:
            print("KNOWN-FINDING: property=%s %s: %s" % (ctx.prop, k["id"], k["what"]))
        else:
            print("note: known finding %s not seen in this run" % k["id"])
    rc = 0
    if os.environ.get("VF_DUMP"):        # development: everything that was rejected
        json.dump([[m, n, l, c, e] for m, n, l, c, e, t in new], open(os.environ["VF_DUMP"], "w"))
    if new:
        rc = 1
        path = os.path.join(ev_dir, "replay_%s.json" % ctx.prop)
        json.dump([{"module": m, "trace": n, "event": l, "clauses": c, "at": e,
                    "cfg": t.get("cfg"), "upto": t["ev"][max(0, l - 12):l]} for m, n, l, c, e, t in new[:20]],
                  open(path, "w"), indent=1)
        for m, n, l, c, e, t in new[:10]:
            print("  rejected by %s: trace %s event %d: %s  at %s" % (m, n, l, ",".join(c), json.dumps(e)[:300]))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
    ev = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
        "coverage": {
            "states": ctx.states, "transitions": ctx.transitions,
            "traces_validated_against_impl": ctx.traces,
            "events_validated": ctx.events,
            "behaviours_generated_by_spec": ctx.behaviours,
            "models": ctx.models,
            "samples": short(ctx.samples[:6]),
        },
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(new),
    }
    json.dump(ev, open(os.path.join(ev_dir, ctx.prop + ".json"), "w"), indent=1)
    print("%s %s: %d states, %d traces, %d events, %d violations, %.1fs" % (
        ctx.prop, ctx.tier, ctx.states, ctx.traces, ctx.events, len(new), time.time() - ctx.t0))
    return rc
