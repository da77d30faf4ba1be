"""P01 P02 P03 P04 P05 P06 P08 P09 P10: the kernel seen by components (Kernel.tla)."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, check, kcheck, kernel, run, stats, tlc
from kcheck import Job, Validator

BINNED = "--timeVortex=sst.timevortex.map.binned"


def prepare(c):
    key = build.ensure_core()
    build.elements(key, "vf", "vfstat")
    c.log("built")


def scen(c, k, **kw):
    return kernel.rnd_scen(random.Random(c.seed * 1000003 + int(c.pid[1:]) * 10007 + k), **kw)


def run_all(c, jobs, val=None, need_ok=True):
    val = val or Validator(c)
    kcheck.pool(c, jobs)
    for j in jobs:
        if kcheck.failed(c, j):
            continue
        val.put(kernel.trace(j.scen, j.hist), kcheck.describe(j), kcheck.files(j))
        kcheck.end_reported(c, j)
    c.add(simulator_runs=len(jobs))
    return val


SMALLP = [dict(t=2), dict(r=2), dict(t=3), dict(r=2, t=2), dict(r=3), dict(t=4, args=["--interthread-links"])]


def p01(c):
    c.tlc_exhaustive("MCKernel", workers=8)
    n = c.q(70, 600)
    jobs = []
    for k in range(n):
        direct = k % 5 == 4 and k % len(SMALLP) == 5
        bulk = k % 10 in (4, 9) and not direct
        s = scen(c, k, maxsend=c.q(60, 150), cops=15, polls=not direct, untimed=not direct, pad=7 if bulk else k % 3, slow=[0, 0, 10][k % 3],
                 **(dict(lat=lambda: c.rng.choice([40, 90]), inj=50) if bulk else {}))
        conf = SMALLP[k % len(SMALLP)] if k % 5 == 4 else dict(args=[BINNED] if k % 7 == 3 else [])
        jobs.append(Job(s, conf, "j%d" % k))
    # two fixed corner models: every send is empty; very long delays next to short ones
    run_all(c, jobs).flush()
    sample_jobs(c, jobs)


def sample_jobs(c, jobs):
    for j in jobs[:3]:
        c.sample({"model": kcheck.describe(j), "ports": j.scen.nodes[0]["ports"], "clocks": j.scen.nodes[0]["clocks"]})


def p02(c):
    c.tlc_exhaustive("MCKernel", "MCKernelRing", workers=8)
    n = c.q(60, 500)
    jobs = []
    for k in range(n):
        # few distinct times, many ports: almost everything collides
        s = scen(c, k, lat=lambda: 5, dense=True, det=True, pers=[5], tb=False, addlat=k % 3 == 0, maxsend=c.q(60, 150),
                 end=120, p_self=[0, 1, 2, 3], unit=[1, 1000][k % 2])
        for nd in s.nodes:
            nd["gen"]["dly"] = 5
        conf = SMALLP[k % len(SMALLP)] if k % 4 == 3 else dict(args=[BINNED] if k % 5 == 1 else [])
        jobs.append(Job(s, conf, "j%d" % k))
    val = run_all(c, jobs)
    # the same model twice gives the same history
    again = [Job(j.scen, j.conf, j.name + "again") for j in jobs[:c.q(15, 60)]]
    kcheck.pool(c, again)
    for a, j in zip(again, jobs):
        if j.res.rc != 0 or kcheck.failed(c, a):
            continue
        x, y = kcheck.fingerprint(j.hist), kcheck.fingerprint(a.hist)
        c.add(simulator_runs=1, repeated_runs=1)
        if x != y:
            c.violation("two runs of one model differ: " + kcheck.describe(j), kcheck.first_diff(x[0], y[0]), kcheck.files(j))
    val.flush()
    sample_jobs(c, jobs)


LAYOUTS = [dict(t=2), dict(t=3), dict(t=4), dict(r=2), dict(r=3), dict(r=2, t=2), dict(r=4), dict(r=3, t=2), dict(t=8)]
PARTS = ["linear", "roundrobin", "simple"]


def p03(c):
    c.tlc_exhaustive("MCParSync", workers=8)
    n = c.q(12, 90)
    rng = c.rng
    val = Validator(c)
    jobs, groups = [], []
    for k in range(n):
        big = k % 4 == 3
        s = scen(c, k, det=True, n=rng.randint(8, 14) if big else rng.randint(4, 8), cops=15, maxsend=50, addlat=k % 2 == 1,
                 polls=k % 3 != 1, untimed=k % 3 != 1,
                 lat=(lambda: rng.choice([2, 30, 60, 100])) if k % 3 == 2 else None,
                 pers=[40, 90] if k % 3 == 2 else None, end=400 if k % 3 == 2 else 250, unit=[1, 1, 1000][k % 3], pad=[0, 7][k % 2], slow=[0, 15][k // 2 % 2])
        g = [Job(s, dict(args=[]), "b%d" % k), Job(s, dict(args=[BINNED]), "v%d" % k)]
        lay = rng.sample(LAYOUTS, c.q(5, 8))
        for i, l in enumerate(lay):
            a = ["--partitioner=sst." + PARTS[(k + i) % 3]]
            if l.get("t", 1) > 1 and (k % 3 == 1 and i % 2 == 0):
                a.append("--interthread-links")
            if (i + k) % 4 == 1:
                a.append(BINNED)
            g.append(Job(s, dict(l, args=a), "j%d_%d" % (k, i)))
        groups.append(g)
        jobs += g
    kcheck.pool(c, jobs)
    c.add(simulator_runs=len(jobs))
    for g in groups:
        base = g[0]
        if kcheck.failed(c, base):
            continue
        fb = kcheck.fingerprint(base.hist)
        for j in g:
            if kcheck.failed(c, j):
                continue
            val.put(kernel.trace(j.scen, j.hist), kcheck.describe(j), kcheck.files(j))
            kcheck.end_reported(c, j)
            f = kcheck.fingerprint(j.hist)
            c.add(layouts_compared=1)
            if f != fb:
                c.violation("history depends on the layout: " + kcheck.describe(j),
                            kcheck.first_diff(fb[0], f[0]) or "end times %s %s" % (fb[1], f[1]), kcheck.files(j))
    val.flush()
    sample_jobs(c, [g[-1] for g in groups])


def p04(c):
    c.tlc_exhaustive("MCKernel", "MCKernelClk", workers=8)
    n = c.q(60, 500)
    jobs = []
    for k in range(n):
        s = scen(c, k, n=1 + k % 4, nclk=(2, 6), cops=50, cn=2, ordp=0.3, maxsend=80, inj=40, p_self=[1, 2],
                 pers=[[2, 3, 5], [10, 15], [4, 6, 9], [7]][k % 4], end=200, polls=False, subs=False,
                 unit=[1, 1000, 10**9 + 7][k % 3], uniq=[2, 3, 4, 6, 8, 9, 12, 16, 18, 24][:[6, 10][k % 2]] if k % 3 == 1 else None)
        conf = SMALLP[k % len(SMALLP)] if k % 6 == 5 else dict(args=[BINNED] if k % 5 == 1 else [])
        if len(s.nodes) < 4 and k % 6 == 5:
            conf = dict(t=2) if len(s.nodes) > 1 else {}
        jobs.append(Job(s, conf, "j%d" % k))
    run_all(c, jobs).flush()
    sample_jobs(c, jobs)


def p05(c):
    c.tlc_exhaustive("MCKernel", "MCKernelClk", workers=8)
    n = c.q(60, 500)
    jobs = []
    for k in range(n):
        s = scen(c, k, n=1 + k % 3, nclk=(3, 9), cops=60, cn=1 + k % 4, ordp=1.0 if k % 2 else 0.8, maxsend=120, inj=40, p_self=[1, 2],
                 pers=[[5], [4, 6], [3]][k % 3], end=250, polls=False, subs=False, cstop=[0, 10, 40][k % 3], unit=1)
        jobs.append(Job(s, dict(t=2) if len(s.nodes) > 2 and k % 5 == 4 else {}, "j%d" % k))
    run_all(c, jobs).flush()
    sample_jobs(c, jobs)


def vote_scen(rng, k):
    """Scripted votes: repeated, withdrawn and unregistered calls."""
    n = rng.randint(1, 4)
    s = kernel.rnd_scen(rng, n=max(2, n), unit=rng.choice([1, 1000]), stop=0, allprim=False, untimed=False, cops=0, cstop=0,
                        maxsend=30, end=150)
    for i, nd in enumerate(s.nodes):
        nd["gen"]["end"] = 10**6           # no generated vote
        if not nd["clocks"]:
            nd["clocks"] = [(rng.choice([3, 5, 10]), 0, 1)]
        nd["clocks"][0] = (nd["clocks"][0][0], nd["clocks"][0][1], 1)
        per = nd["clocks"][0][0]
        sc = {}
        last = 0
        ticks = sorted(rng.sample(range(1, 30), rng.randint(1, 5)))
        for t in ticks:
            seq = rng.choice([["ok"], ["ok", "ok"], ["no"], ["no", "no"], ["ok", "no"], ["no", "ok"], ["ok", "no", "no"]])
            sc["c0.%d" % t] = ";".join(seq)
            last = t
        if nd["prim"]:
            sc["c0.%d" % (last + rng.randint(1, 6))] = rng.choice(["ok", "ok;ok"])
        nd["script"] = sc
    # one component keeps the run going until all scripts are done
    nd = s.nodes[0]
    nd["prim"] = True
    nd["script"] = {k2: v for k2, v in nd["script"].items() if v in ("no", "no;no")}
    nd["script"]["c0.%d" % (400 // nd["clocks"][0][0] + rng.randint(0, 9))] = "ok"
    return s


def p06(c):
    c.tlc_exhaustive("MCKernel", "MCKernelEnd", workers=8)
    n = c.q(60, 400)
    jobs = []
    for k in range(n):
        if k % 3 == 0:
            s = vote_scen(random.Random(c.seed * 77 + k), k)
        else:
            far = k % 4 == 1
            s = scen(c, k, end=[30, 120, 250][k % 3], maxsend=40, cops=10, inj=30, pers=[3, 5, 7], allprim=k % 2 == 0, zok=int(far),
                     lat=(lambda: c.rng.choice([60, 150, 400])) if far else None)
            if k % 3 == 1:
                s.stop = c.rng.randint(5, 200)
        conf = (SMALLP + [dict(r=4)])[k % 7] if k % 2 else dict(args=[BINNED] if k % 8 == 2 else [])
        jobs.append(Job(s, conf, "j%d" % k))
    run_all(c, jobs).flush()
    sample_jobs(c, jobs)


def ck_scen(c, k, **kw):
    a = dict(det=True, cops=25, cn=2, maxsend=60, p_self=[0, 1, 2], end=200, inj=30, stop=0)
    a.update(kw)
    return scen(c, k, **a)


def ck_group(c, plan, val, same):
    """plan: list of (scen, conf, period, layouts or None). Runs, restarts and compares."""
    from concurrent.futures import ThreadPoolExecutor

    def one(x):
        i, (s, conf, per, lays, npts) = x
        ref = kcheck.execute(c, Job(s, conf, "ref%d" % i))
        j = kcheck.checkpoint_jobs(c, s, conf, per, "ck%d" % i, None, None, None)
        res = []
        if j.res.rc == 0 and ref.res.rc == 0 and npts:
            rng = random.Random(c.seed + i)
            pts = j.points if len(j.points) <= npts else sorted(rng.sample(j.points, npts))
            for q, p in enumerate(pts):
                for l in (lays or [(conf.get("r", 1), conf.get("t", 1))]):
                    res.append((p, l) + kcheck.restart(c, j, p, l, "rs%d_%d_%d%d" % ((i, q) + l)))
        return i, ref, j, res

    w = 6 if any(x[1].get("r", 1) * x[1].get("t", 1) > 1 or x[3] for x in plan) else 12
    with ThreadPoolExecutor(w) as ex:
        out = list(ex.map(one, enumerate(plan)))
    for i, ref, j, res in out:
        c.add(simulator_runs=2 + len(res), restarts=len(res), checkpoints=len(j.points))
        if kcheck.failed(c, ref) or kcheck.failed(c, j, "run with checkpoints"):
            continue
        fb = kcheck.fingerprint(ref.hist)
        fj = kcheck.fingerprint(j.hist)
        val.put(kernel.trace(ref.scen, ref.hist), kcheck.describe(ref), kcheck.files(ref))
        val.put(kernel.trace(j.scen, j.hist), kcheck.describe(j), kcheck.files(j))
        if fb != fj:
            c.violation("taking checkpoints changed the run: " + kcheck.describe(j), kcheck.first_diff(fb[0], fj[0]) or (fb[1], fj[1]),
                        kcheck.files(j))
            continue
        for p, l, y, h in res:
            what = "restart at %d as %dx%d of %s" % (p[1], l[0], l[1], kcheck.describe(j))
            if y.rc != 0:
                c.violation("restart failed: " + what, "rc=%s\n%s" % (y.rc, y.out[-2500:]), kcheck.files(j))
                continue
            u = j.scen.unit
            sp = kcheck.spliced(j, p[1] // u, h)
            f = kcheck.fingerprint(sp)
            val.put(kernel.trace(j.scen, sp), what, kcheck.files(j))
            if any(r["x"] in ("ev", "ck") and r["t"] < p[1] // u for hh in h.values() for r in hh):
                c.violation("activity before the checkpoint time after a restart: " + what, "", kcheck.files(j))
            if f != fb:
                c.violation("restarted run differs: " + what, kcheck.first_diff(fb[0], f[0]) or "end %s %s" % (fb[1], f[1]),
                            kcheck.files(j))
    return out


def p08(c):
    plan = []
    n = c.q(22, 160)
    confs = [{}, {}, dict(t=2), dict(r=2), {}, dict(t=3), dict(r=2, t=2), {}]
    for k in range(n):
        plan.append((ck_scen(c, k, unit=[1, 1000][k % 2]), confs[k % len(confs)], [17, 50, 61, 30][k % 4], None, c.q(2, 5)))
    val = Validator(c)
    ck_group(c, plan, val, True)
    val.flush()
    stats.stat_restarts(c, c.q(12, 120))
    sample_jobs(c, [Job(p[0], p[1], "") for p in plan])


def p09(c):
    plan = []
    n = c.q(12, 90)
    confs = [{}, dict(t=2), dict(r=2), dict(t=4), dict(r=2, t=2), dict(r=3)]
    for k in range(n):
        cf = confs[k % len(confs)]
        lays = [(1, 1), (1, 2), (2, 1), (1, 3), (2, 2), (3, 1), (1, 4), (4, 1)]
        lays = [l for l in lays if l != (cf.get("r", 1), cf.get("t", 1))]
        lays = random.Random(c.seed * 31 + k).sample(lays, c.q(3, 5))
        plan.append((ck_scen(c, k, n=6 + k % 3, unit=[1, 1000][k % 2]), cf, [40, 70, 90][k % 3], lays, c.q(1, 3)))
    val = Validator(c)
    ck_group(c, plan, val, False)
    val.flush()
    stats.stat_restarts(c, c.q(10, 90), [(1, 1), (1, 2), (2, 1), (1, 3)])
    sample_jobs(c, [Job(p[0], p[1], "") for p in plan])


def p10(c):
    plan = []
    n = c.q(26, 160)
    confs = [{}, {}, dict(t=2), dict(r=2), {}, dict(t=3), dict(r=2, t=2), {}, dict(r=3)]
    for k in range(n):
        s = ck_scen(c, k, unit=[1, 1000][k % 2], end=[60, 200, 120][k % 3], cops=10, cn=1)
        if k % 5 == 3:
            # a parallel run that all components have left still runs to its next sync: stop before that
            s.stop = min(random.Random(k).randint(40, 150), max(nd["gen"]["end"] for nd in s.nodes if nd["prim"]))
        plan.append((s, confs[k % len(confs)], [7, 10, 25, 33, 60][k % 5], None, 1 if k % 3 == 0 else 0))
    val = Validator(c)
    out = ck_group(c, plan, val, True)
    val.flush()
    traces, own = [], []
    for (i, ref, j, res), p in zip(out, plan):
        if j.res.rc != 0 or ref.res.rc != 0:
            continue
        u = j.scen.unit
        ends = {r["end"] for h in j.hist.values() for r in h if r["x"] == "fi"}
        lines = [{"x": "ck", "n": n_, "t": t // u if t % u == 0 else -1} for n_, t, _ in j.points]
        lines.append({"x": "en", "t": max(ends)})
        traces.append({"per": p[2], "stop": j.scen.stop, "ser": 1 if j.conf.get("r", 1) * j.conf.get("t", 1) == 1 else 0, "l": lines})
        own.append(j)
    if traces:
        v, r = tlc.validate("CheckpointTrace", traces)
        c.add(states=r.distinct, transitions=r.generated, traces_validated_against_impl=len(traces))
        for x, j, t in zip(v, own, traces):
            if x is not None:
                c.violation("checkpoint schedule: " + kcheck.describe(j), "%s %s" % (x, t), kcheck.files(j))
    sample_jobs(c, [Job(p[0], p[1], "") for p in plan])


ALL = dict(P01=p01, P02=p02, P03=p03, P04=p04, P05=p05, P06=p06, P08=p08, P09=p09, P10=p10)


def entry(pid):
    def f(c):
        prepare(c)
        c.assumptions += ["test components do what their logs say; the logs are written by the components themselves",
                          "relative order of plain (unordered) clock handlers of one component is unspecified"]
        ALL[pid](c)
    return check.main(pid, f)


if __name__ == "__main__":
    sys.exit(entry(sys.argv[1]))
