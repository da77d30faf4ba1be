"""Running TLC."""
import json, os, re, shutil, subprocess, tempfile
import build

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(build.VERIF, "spec")


class TlcError(Exception):
    pass


class Res:
    pass


def run(module, cfg=None, env=None, workers=4, timeout=600, args=(), mem="4g"):
    meta = tempfile.mkdtemp(prefix="tlc.")
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-XX:TieredStopAtLevel=4",
               "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE",
               "-workers", str(workers), "-metadir", meta, "-config", (cfg or module) + ".cfg", *args, module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            raise TlcError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = Res()
    r.out = p.stdout
    r.rc = p.returncode
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.out)
    r.generated, r.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    r.finished = "Model checking completed" in r.out or "Finished in" in r.out
    return r


def check(module, cfg=None, **kw):
    """Exhaustive check of a model: it must complete without error."""
    r = run(module, cfg, **kw)
    if r.rc != 0 or "No error has been found" not in r.out:
        raise TlcError("TLC: %s (%s) did not pass\n%s" % (module, cfg, r.out[-4000:]))
    return r


def validate(module, traces, workers=4, timeout=600, keep=None, cfg=None, key="VF_TRACES"):
    """Validate a list of traces. Returns (verdicts, res): verdicts[i] is None if accepted, else a text."""
    d = tempfile.mkdtemp(prefix="trace.")
    try:
        f = os.path.join(d, "traces.json")
        with open(f, "w") as fh:
            json.dump(traces, fh)
        r = run(module, cfg, env={key: f}, workers=workers, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if r.rc != 0 or "No error has been found" not in r.out:
        raise TlcError("TLC failed on %s\n%s" % (module, r.out[-4000:]))
    verdicts = ["no verdict"] * len(traces)
    # TLC prints a value over several lines when it is long
    txt = r.out
    for m in re.finditer(r'<<\s*"ACCEPT",\s*(\d+)\s*>>', txt):
        i = int(m.group(1)) - 1
        if verdicts[i] == "no verdict":
            verdicts[i] = None
    for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*(.*?)\s*>>\n(?=\S)', txt + "\nX", re.S):
        i = int(m.group(1)) - 1
        verdicts[i] = (int(m.group(2)), re.sub(r"\s+", " ", m.group(3)))
    if any(v == "no verdict" for v in verdicts):
        raise TlcError("TLC gave no verdict on some trace of %s\n%s" % (module, r.out[-3000:]))
    return verdicts, r
