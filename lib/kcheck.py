"""Driver of the kernel checks: run scenarios in several configurations, validate all logs with TLC."""
import hashlib, json, os, glob, shutil
from concurrent.futures import ThreadPoolExecutor
import build, kernel, run, tlc

SER = dict(r=1, t=1)


def cname(c):
    s = "r%dt%d" % (c.get("r", 1), c.get("t", 1))
    if c.get("args"):
        s += " " + " ".join(c["args"])
    return s


class Job:
    """One run of the simulator (or a checkpointed run and its restarts)."""

    def __init__(self, scen, conf, name):
        if "--interthread-links" in conf.get("args", []) and not scen.direct_ok():
            conf = dict(conf, args=[a for a in conf["args"] if a != "--interthread-links"])
        self.scen, self.conf, self.name = scen, conf, name


def execute(c, job, timeout=120):
    d = os.path.join(c.work, job.name)
    r = run.sst(job.scen.args() + list(job.conf.get("args", [])), d, job.scen.model(), ranks=job.conf.get("r", 1),
                threads=job.conf.get("t", 1), timeout=timeout, env=job.conf.get("env"))
    if (r.rc != 0 and "VF_" not in r.out):
        # a failure to start is retried once: only a repeatable failure is the simulator's
        shutil.rmtree(d, ignore_errors=True)
        r = run.sst(job.scen.args() + list(job.conf.get("args", [])), d, job.scen.model(), ranks=job.conf.get("r", 1),
                    threads=job.conf.get("t", 1), timeout=timeout, env=job.conf.get("env"))
    job.res = r
    job.hist = kernel.histories(job.scen, run.logs(d))
    return job


def pool(c, jobs, timeout=120):
    """Run jobs; wide ones (many processes or threads) are limited in number."""
    small = [j for j in jobs if j.conf.get("r", 1) * j.conf.get("t", 1) <= 1]
    mid = [j for j in jobs if 1 < j.conf.get("r", 1) * j.conf.get("t", 1)]
    with ThreadPoolExecutor(14) as ex:
        list(ex.map(lambda j: execute(c, j, timeout), small))
    with ThreadPoolExecutor(5) as ex:
        list(ex.map(lambda j: execute(c, j, timeout), mid))


def describe(job):
    s = job.scen
    return "%d comps, %d links, unit %d, stop %d, %s" % (len(s.nodes), len(s.links), s.unit, s.stop, cname(job.conf))


class Validator:
    """Collects traces, removes identical ones and validates the rest in batches."""

    def __init__(self, c, module="KernelTrace"):
        self.c, self.module = c, module
        self.traces, self.owner, self.seen = [], [], {}
        self.total = 0
        self.lines = 0

    def put(self, trace, what, files):
        self.total += 1
        self.lines += len(trace["l"])
        h = hashlib.sha1(json.dumps(trace, sort_keys=True).encode()).hexdigest()
        if h in self.seen:
            return h
        self.seen[h] = len(self.traces)
        self.traces.append(trace)
        self.owner.append((what, files))
        return h

    def flush(self, timeout=600):
        c = self.c
        if not self.traces:
            return
        # balance: longest traces first within batches of limited size
        todo = list(range(len(self.traces)))
        batches, cur, size = [], [], 0
        for i in todo:
            cur.append(i)
            size += len(self.traces[i]["l"])
            if size > 60000:
                batches.append(cur)
                cur, size = [], 0
        if cur:
            batches.append(cur)
        for b in batches:
            v, r = tlc.validate(self.module, [self.traces[i] for i in b], timeout=timeout, workers=6)
            bad = [k for k, x in enumerate(v) if x is not None]
            if bad:     # a rejection has to repeat
                v2, _ = tlc.validate(self.module, [self.traces[b[k]] for k in bad], timeout=timeout, workers=1)
                for k, x in zip(bad, v2):
                    if x is None:
                        raise tlc.TlcError("a rejection did not repeat")
                    i = b[k]
                    what, files = self.owner[i]
                    ln = self.traces[i]["l"][x[0] - 1] if 0 < x[0] <= len(self.traces[i]["l"]) else None
                    c.violation("trace rejected by %s: %s" % (self.module, what),
                                "line %d: %s\n%s" % (x[0], x[1], json.dumps(ln)),
                                dict(files, **{"trace.json": [self.traces[i]]}))
            c.add(states=r.distinct, transitions=r.generated)
        c.cov["traces_validated_against_impl"] += self.total
        c.add(distinct_traces=len(self.traces), trace_lines=self.lines)
        c.log("%s: %d traces (%d distinct), %d lines" % (self.module, self.total, len(self.traces), self.lines))
        self.traces, self.owner, self.total, self.lines = [], [], 0, 0


def failed(c, job, what="run"):
    """True (and a violation) if the run did not end normally."""
    if job.res.rc != 0:
        c.violation("%s did not complete: %s" % (what, describe(job)), "rc=%s\n%s" % (job.res.rc, job.res.out[-2500:]),
                    {"model.json": job.scen.model(), "cmd.txt": " ".join(job.res.cmd)})
        return True
    return False


def files(job):
    return {"model.json": job.scen.model(), "cmd.txt": " ".join(job.res.cmd)}


def end_reported(c, job):
    """The end time printed by the simulator is the one the components saw."""
    ends = {r["end"] for h in job.hist.values() for r in h if r["x"] == "fi"}
    if job.res.end is None:
        c.violation("no end of simulation reported: " + describe(job), job.res.out[-800:], files(job))
        return
    from fractions import Fraction
    val, un = job.res.end
    ps = Fraction(val) * kernel.UNITS[un] if un != "fs" else Fraction(val) / 1000
    want = {e * job.scen.unit for e in ends}
    if len(want) == 1:
        w = want.pop()
        # the printed value is rounded to a few digits
        if w == 0 and ps == 0:
            return
        if w == 0 or abs(ps - w) > Fraction(w, 1000):
            c.violation("reported end time differs from the one components see: " + describe(job),
                        "%s %s, components saw %d ps" % (val, un, w), files(job))


def fingerprint(hist, upto=None):
    """What the components observed during the run, up to the end time."""
    ends = {r["end"] for h in hist.values() for r in h if r["x"] == "fi"}
    e = max(ends) if ends else None
    out = {}
    for c, recs in hist.items():
        out[c] = [r for r in recs if r["x"] in ("se", "ev", "ck", "bad") and (e is None or r.get("t", 0) <= e)]
    return out, sorted(ends)


def first_diff(a, b):
    for c in a:
        x, y = a[c], b.get(c, [])
        if x != y:
            for i in range(max(len(x), len(y))):
                p = x[i] if i < len(x) else None
                q = y[i] if i < len(y) else None
                if p != q:
                    return "component %d, step %d: %s  /  %s" % (c, i, json.dumps(p), json.dumps(q))
    return None


def checkpoint_jobs(c, scen, conf, period, name, maxrestart, layouts, rng):
    """Run with checkpoints, then restart from (some of) them in the given layouts.
    Returns (job of the first run, [(T, layout, result, hist)])."""
    d = os.path.join(c.work, name)
    args = scen.args() + ["--checkpoint-sim-period=%dps" % (period * scen.unit)] + list(conf.get("args", []))
    j = Job(scen, dict(conf, args=args), name)
    j.conf = dict(conf, args=list(conf.get("args", [])) + ["--checkpoint-sim-period=%dps" % (period * scen.unit)])
    execute(c, j)
    pts = []
    for f in glob.glob(d + "/**/*.sstcpt", recursive=True):
        base = os.path.basename(f)[:-len(".sstcpt")]
        n, t = base.split("_")[-2:]
        pts.append((int(n), int(t), f))
    pts.sort()
    j.points = pts
    return j


def restart(c, j, point, layout, name, timeout=120, extra=()):
    n, t, f = point
    r, th = layout
    o = os.path.join(c.work, name)
    for attempt in (0, 1):
        shutil.rmtree(o, ignore_errors=True)
        args = list(extra)
        if layout != (j.conf.get("r", 1), j.conf.get("t", 1)):
            args.append("--num-threads=%d" % th)
        y = run.sst(args, o, sdl=f, ranks=r, timeout=timeout)
        if y.rc == 0:
            break
    h = kernel.histories(j.scen, run.logs(o))
    return y, h


def spliced(j, T, h):
    """History of the original run before T followed by that of the restarted run."""
    base = j.hist
    return {c: [r for r in base[c] if r["x"] == "se" or (r["x"] in ("ev", "ck", "bad") and r.get("t", 0) < T)] +
               [r for r in h.get(c, [])] for c in base}
