"""Runs the checks of a property and reports."""
import json
import os
import re
import signal
import subprocess
import sys
import time

from . import build, tlc

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.json")


class Broken(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.kinds = {}
        self.samples = []
        self.viol = []          # (stage, label, faults, replay)
        self.known = []
        self.models = []
        self.work = os.path.join(build.BUILD, "run", f"{pid}-{tier}-{os.getpid()}")
        os.makedirs(self.work, exist_ok=True)
        with open(KNOWN) as fh:
            self.findings = [f for f in json.load(fh)["known"] if f["property"] == pid]
        self.fixed = None

    def q(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    # ------------------------------------------------------------ binding
    def drive(self, driver, variant="default", part="", env=None, tag="", stall=240,
              seed=None, tier=None):
        """Runs a driver on the implementation; returns the path of the recorded trace."""
        lib = build.gprpy(variant)
        out = os.path.join(self.work, f"{driver}-{variant}-{part}{tag}.ndjson")
        open(out, "w").close()
        e = dict(os.environ, PYTHONPATH=f"{lib}:{VERIF}/drivers:{build.REPO}/code/python",
                 PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1",
                 OMP_NUM_THREADS="4", PYTHONHASHSEED="0")
        e.update(env or {})
        resume, restarts = 0, 0
        while True:
            log = open(out + ".log", "a")
            p = subprocess.Popen([build.PY, f"{VERIF}/drivers/{driver}.py", "--out", out,
                                  "--tier", tier or self.tier,
                                  "--seed", str(self.seed if seed is None else seed),
                                  "--resume", str(resume), "--part", part],
                                 env=e, stdout=log, stderr=log, cwd=self.work,
                                 start_new_session=True)
            hung = False
            last, since = None, time.time()
            while p.poll() is None:
                time.sleep(.02)
                at = self._at(out)
                if at != last:
                    last, since = at, time.time()
                elif time.time() - since > stall:
                    hung = True
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
            log.close()
            at = self._at(out)
            if p.returncode == 0 and at and at[0] == "done":
                break
            if not at or at[0] == "done" or p.returncode > 0:
                raise Broken(f"driver {driver} ({variant}) failed: rc {p.returncode}\n"
                             + open(out + ".log").read()[-3000:])
            # the implementation crashed or hung in this case
            i, label = int(at[0]), at[1]
            self._drop_partial(out)
            with open(out, "a") as fh:
                fh.write(json.dumps({"ev": "crash", "case": label,
                                     "what": "hung" if hung else
                                     f"crashed with signal {-p.returncode}"}) + "\n")
            restarts += 1
            if restarts > 12:
                with open(out, "a") as fh:
                    fh.write(json.dumps({"ev": "crash", "case": label,
                                         "what": "too many crashes"}) + "\n")
                break
            resume = i + 1
        return out

    @staticmethod
    def _at(out):
        try:
            return open(out + ".at").read().split("\n")
        except OSError:
            return None

    @staticmethod
    def _drop_partial(out):
        data = open(out, "rb").read()
        if data and not data.endswith(b"\n"):
            with open(out, "wb") as fh:
                fh.write(data[:data.rfind(b"\n") + 1])

    def consts(self, variant):
        c = {"THERMAL": "FALSE", "MULTI": "FALSE", "LSET": "2", "N": "2"}
        lib = build.gprpy(variant)
        r = subprocess.run([build.PY, "-c",
                            "import GPRpy as g;o=g.options;"
                            "print(o.THERMAL(),o.MULTI(),o.LSET(),o.N())"],
                           env=dict(os.environ, PYTHONPATH=lib), capture_output=True, text=True)
        if r.returncode:
            raise Broken("GPRpy cannot be imported: " + r.stderr[-2000:])
        t, m, ls, n = r.stdout.split()
        c = {"THERMAL": t.upper(), "MULTI": m.upper(), "LSET": ls, "N": n}
        return c

    def validate(self, spec, trace, variant="default", expect=(), consts=None, use=None):
        """Checks the trace against the specification."""
        lines = open(trace).read().splitlines()
        evs = [json.loads(x) for x in lines]
        cs = dict(self.consts(variant))
        cs = {k: cs[k] for k in (("THERMAL", "MULTI", "LSET") if use is None else use)}
        cs.update(consts or {})
        rej, gen = tlc.trace(spec, trace, cs, len(lines))
        if rej:
            # a rejection has to repeat
            again, _ = tlc.trace(spec, trace, cs, len(lines))
            if set(again) != set(rej):
                raise tlc.ModelError(f"TLC disagrees with itself on {trace}")
        self.states += len(lines)
        self.transitions += gen
        self.traces += len({e["case"] for e in evs})
        self.events += len(lines)
        for e in evs:
            self.kinds[e["ev"]] = self.kinds.get(e["ev"], 0) + 1
        have = {e["ev"] for e in evs}
        crashed = any(e["ev"] in ("crash", "exception") for e in evs)
        missing = [k for k in expect if k not in have]
        if missing and not crashed:
            raise Broken(f"{trace} has no event {missing}")
        if evs and len(self.samples) < 4:
            self.samples.append(f"{spec}: {evs[0]['ev']} {evs[0]['case']}")
            self.samples.append(f"{spec}: {evs[-1]['ev']} {evs[-1]['case']}")
        for n, faults in sorted(rej.items()):
            self.reject(spec, evs[n - 1], faults, variant)
        return rej

    def reject(self, spec, ev, faults, variant):
        for f in self.findings:
            if re.fullmatch(f["case"], ev["case"]) and re.search(f.get("fault", ""), faults):
                if f["id"] not in [k["id"] for k in self.known]:
                    self.known.append(f)
                return
        d = os.path.join(build.BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.pid}-{len(self.viol)}.json")
        if len(self.viol) > 30:
            self.viol.append((spec, ev["case"], faults, self.viol[-1][3], variant))
            return
        with open(path, "w") as fh:
            json.dump({"property": self.pid, "spec": spec, "variant": variant,
                       "case": ev["case"], "faults": faults, "event": ev}, fh)
        self.viol.append((spec, ev["case"], faults, path, variant))

    # ------------------------------------------------------------ models
    def model(self, module, cfg, **kw):
        out, gen, dist = tlc.model(module, cfg, **kw)
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "states": dist, "generated": gen})
        return out

    def refuted(self, module, cfg):
        """A faulty variant of a design, as a check of the model itself."""
        out, gen, dist = tlc.refuted(module, cfg)
        self.models.append({"module": module, "faulty variant refuted after": gen})
        return out

    # ------------------------------------------------------------ report
    def finish(self, level, note):
        for f in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {f['what']}")
        for spec, case, faults, path, var in self.viol[:20]:
            print(f"# {spec} ({var}) rejects {case}: {faults[:400]}")
        if self.viol:
            print(f"VIOLATION property={self.pid} replay={self.viol[0][3]}")
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "samples": self.samples or ["none"],
                           "explanation": f"events by kind: {json.dumps(self.kinds)}; models: "
                                          f"{json.dumps(self.models)}; {note}"},
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        print(f"{self.pid} {self.tier}: {self.traces} traces, {self.events} events, "
              f"{self.states} states, {len(self.viol)} rejected, {ev['wall_s']} s")
        import shutil
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.viol else 0
