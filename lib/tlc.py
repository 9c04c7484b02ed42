"""Runs TLC."""
import os
import re
import shutil
import subprocess
import tempfile

from . import build

SPEC = os.path.join(build.VERIF, "spec")


class ModelError(Exception):
    """The specification could not be evaluated: neither a pass nor a violation."""


def _java(mem):
    return ["java", "-Xss512m", f"-Xmx{mem}", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=8"]


def run(module, cfg_text, env=None, workers=8, mem="12g", timeout=3000, cont=True, extra=()):
    """Returns (output, states, distinct)."""
    classes = build.classes()
    work = tempfile.mkdtemp(prefix="tlc-", dir=_scratch())
    try:
        cfg = os.path.join(work, module + ".cfg")
        with open(cfg, "w") as fh:
            fh.write(cfg_text)
        cmd = _java(mem) + [
            f"-DTLA-Library={SPEC}",
            "-cp", f"{classes}:{build.TLAJARS}", "tlc2.TLC", "-nowarning", "-noGenerateSpecTE",
            "-deadlock", "-workers", str(workers), "-metadir", os.path.join(work, "st"),
            "-config", cfg] + (["-continue"] if cont else []) + list(extra) \
            + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=work)
        out = r.stdout + r.stderr
    finally:
        shutil.rmtree(work, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m and "violated by the initial state" in out:
        return out, 1, 1
    if not m:
        raise ModelError(f"TLC on {module}: no result\n"
                         + "\n".join(l for l in out.splitlines()
                                     if not l.startswith(("Parsing", "Semantic proc", "Loading")))[-3000:])
    return out, int(m[-1][0]), int(m[-1][1])


def _scratch():
    d = os.path.join(build.BUILD, "scratch")
    os.makedirs(d, exist_ok=True)
    return d


REJ = re.compile(r'<<\s*"REJECTED",\s*(\d+),\s*(\{.*?\})\s*>>\s*\n', re.S)


def trace(module, path, consts, nlines, timeout=3000):
    """Checks a recorded trace. Returns ({line: faults}, states)."""
    cfg = "SPECIFICATION Spec\nINVARIANT Accepted\nCONSTANTS\n Faults <- EventFaults\n" \
        + "".join(f" {k} = {v}\n" for k, v in consts.items())
    out, gen, dist = run(module, cfg, env={"TRACE": path}, timeout=timeout)
    rej = {int(a): " ".join(b.split()) for a, b in REJ.findall(out)}
    if "Error:" in out:
        errs = [x for x in re.findall(r"(?m)^Error: (.*)", out)
                if not x.startswith(("Invariant Accepted is violated",
                                     "The behavior up to this point is"))]
        if errs:
            i = out.find("Error: " + errs[0])
            raise ModelError(f"TLC on {module}:\n" + out[i:i + 5000])
    nviol = out.count("Invariant Accepted is violated")
    if nviol and not rej:
        raise ModelError(f"TLC on {module}: violation without a rejected event\n" + out[-4000:])
    if dist != nlines + 64:
        raise ModelError(f"TLC on {module}: {dist - 64} of {nlines} events examined\n"
                         + out[-4000:])
    return rej, gen


def model(module, cfg_text, timeout=3000, workers=8, extra=()):
    """An exhaustive run of a model on its own: it has to hold."""
    out, gen, dist = run(module, cfg_text, cont=False, timeout=timeout, workers=workers,
                         extra=extra)
    if "No error has been found" not in out:
        raise ModelError(f"the model {module} does not hold:\n" + out[-6000:])
    return out, gen, dist


def refuted(module, cfg_text, timeout=600):
    """A model of a faulty design: TLC has to find that it does not hold."""
    out, gen, dist = run(module, cfg_text, cont=False, timeout=timeout, workers=8)
    if "is violated" not in out:
        raise ModelError(f"the faulty design {module} is not refuted:\n" + out[-3000:])
    return out, gen, dist
