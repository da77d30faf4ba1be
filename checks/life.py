"""P07: lifecycle and untimed data (Lifecycle.tla)."""
import glob, json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, check, run, tlc
from concurrent.futures import ThreadPoolExecutor


class Case:
    """Components on a random graph, each with a script of what it sends and reads in which phase."""

    def __init__(self, r, ncomp):
        self.r, self.n = r, ncomp
        self.unit = r.choice([1, 1000])
        self.ports = [[] for _ in range(ncomp)]      # (kind, receiving queue, sending queue)
        self.links = []
        self.nq = 0
        far = r.random() < 0.3                       # long links: the run ends with events under way
        pairs = [(k, (k + 1) % ncomp) for k in range(ncomp)] if r.random() < 0.8 else []
        pairs += [tuple(r.sample(range(ncomp), 2)) for _ in range(r.randrange(3))] if ncomp > 1 else []
        for a, b in pairs:
            if a == b:
                continue
            qa, qb = self.nq + 1, self.nq + 2        # read at a, read at b
            self.nq += 2
            self.links.append(dict(a=["c%d" % a, "p%d" % len(self.ports[a])], b=["c%d" % b, "p%d" % len(self.ports[b])],
                                   la=r.choice([9, 20] if far else [1, 2, 5]), lb=r.choice([7, 30] if far else [1, 3, 4])))
            self.ports[a].append((r.choice("hhp"), qa, qb))
            self.ports[b].append((r.choice("hhp"), qb, qa))
        for c in range(ncomp):
            if r.random() < 0.3 or not self.ports[c]:
                self.nq += 1
                self.ports[c].append(("s", self.nq, self.nq))
        self.end = r.choice([15, 40] if far else [3, 8, 15])
        self.stop = r.choice([0, 0, self.end - 1, self.end - 2])
        self.val = 0
        self.scripts, self.runs = [], []
        for c in range(ncomp):
            ops = []
            for st in "ic":
                # the last phase in which anything is sent
                for ph in range(r.choice([0, 0, 1, 2, 3, 5])):
                    for _ in range(r.choice([0, 1, 1, 2, 4])):
                        p = r.randrange(len(self.ports[c]))
                        k = r.choice("sssrrrz")
                        if k == "s":
                            self.val += 1
                            ops.append((st, ph, "s", p, self.val, r.choice([0, 1, 5, 300, 900 if r.random() < 0.3 else 2])))
                        elif k == "r":
                            ops.append((st, ph, "r", p, 0, r.choice([0, 0, 1, 2])))
                        else:
                            ops.append((st, ph, "z", 0, 0, r.choice([0, 200, 1500])))
            if r.random() < 0.3:
                ops.append(("z", 0, "z", 0, 0, 500))
            self.scripts.append(ops)
            self.runs.append([(r.randrange(1, self.end + 1), r.randrange(len(self.ports[c])), r.randrange(8)) for _ in range(r.choice([0, 1, 4]))]
                             + [(t, r.randrange(len(self.ports[c])), r.randrange(8)) for t in range(self.end - 6, self.end) if far and r.random() < 0.7])

    def model(self, lay):
        comps = []
        for c in range(self.n):
            comps.append({"name": "c%d" % c, "type": "vflc.Node", "rank": lay[c], "params": {
                "unit": self.unit, "end": self.end if c == 0 else max(1, self.end - 2), "ports": "".join(p[0] for p in self.ports[c]),
                "script": ",".join(":".join(str(x) for x in o) for o in self.scripts[c]),
                "runs": ",".join("%d:%d:%d" % x for x in self.runs[c])}})
        return {"unit": self.unit, "comps": comps, "links": self.links}


def collect(case, r, lay_rank):
    recs = []
    for who, runs in run.logs(r.dir).items():
        if who[0] != "c" or not who[1:].isdigit():
            continue
        c = int(who[1:])
        for part in runs:
            for i, x in enumerate(part):
                recs.append((x.get("ts", 0), i, c, x))
    recs.sort(key=lambda x: (x[0], x[1]))
    out, was = [], None
    for ts, i, c, x in recs:
        y = dict(c=c + 1, x=x["x"], s=x.get("s", 0), ph=x.get("ph", 0), v=x.get("v", 0), g=x.get("g", 0), q=0)
        if x["x"] in ("send", "recv"):
            y["q"] = case.ports[c][x["q"]][2 if x["x"] == "send" else 1]
        if x["x"] == "run" and was == (c, "run"):
            continue
        was = (c, x["x"])
        out.append(y)
        if x["x"] == "b":
            lay_rank[c] = x["r"]
    out.append(dict(c=1, x="done", s=0, ph=0, v=0, g=0, q=0))
    return out


CONFS = [dict(), dict(t=2), dict(r=2), dict(t=3), dict(r=2, t=2), dict(r=3), dict(t=2, args=["--interthread-links"]), dict(t=4)]


def layout(r, n, conf):
    R, T = conf.get("r", 1), conf.get("t", 1)
    lay = [[i % R, (i // R) % T] for i in range(n)]
    if r.random() < 0.5:
        r.shuffle(lay)
    return lay


def p07(c):
    c.tlc_exhaustive("MCLifecycle", workers=8)
    plan = []
    for k in range(c.q(96, 1200)):
        r = random.Random(c.seed * 1000003 + k)
        conf = CONFS[k % len(CONFS)]
        case = Case(r, r.choice([1, 2, 3]) if not conf else max(conf.get("r", 1) * conf.get("t", 1), r.choice([2, 3, 4, 6])))
        plan.append((case, conf, layout(r, case.n, conf), k % 6 == 5))

    def go(x):
        i, (case, conf, lay, ck) = x
        args = ["--partitioner=sst.self"] + conf.get("args", [])
        if case.stop:
            args.append("--stop-at=%dps" % (case.stop * case.unit))
        ck = ck and not conf.get("args")
        if ck:
            args.append("--checkpoint-sim-period=%dps" % (max(1, case.end // 2) * case.unit))
        m = case.model(lay)
        r = run.sst(args, c.dir("l%d" % i), model=m, ranks=conf.get("r", 1), threads=conf.get("t", 1), timeout=120)
        rs = []
        for f in sorted(glob.glob(r.dir + "/**/*.sstcpt", recursive=True))[:1] if ck and r.rc == 0 else []:
            rs.append(run.sst([], c.dir("l%d_r" % i), sdl=f, ranks=conf.get("r", 1), timeout=120))
        return i, case, conf, m, r, rs

    trs = []
    with ThreadPoolExecutor(6) as ex:
        for i, case, conf, m, r, rs in ex.map(go, list(enumerate(plan))):
            for restart, y in [(0, r)] + [(1, y) for y in rs]:
                desc = "case %d %s%s" % (i, conf, " restarted" if restart else "")
                files = {"model.json": m, "out.txt": y.out, "cmd.txt": " ".join(y.cmd)}
                c.add(simulator_runs=1)
                if y.rc != 0 or not y.end:
                    c.violation(desc + ": the simulation does not end", "exit code %s\n%s" % (y.rc, y.out[-1200:]), files)
                    continue
                rk = [0] * case.n
                l = collect(case, y, rk)
                trs.append((desc, files, {"rk": rk, "nq": case.nq, "restart": restart, "l": l}))
                c.add(untimed_sent=sum(1 for x in l if x["x"] == "send"), phases=1 + max([x["ph"] for x in l if x["s"] == 1] or [0]))
    n = 8
    chunks = [trs[i::n] for i in range(n) if trs[i::n]]
    with ThreadPoolExecutor(n) as ex:
        for ch, (v, r) in zip(chunks, ex.map(lambda ch: tlc.validate("LifecycleTrace", [x[2] for x in ch], workers=1, timeout=600), chunks)):
            c.add(traces_validated_against_impl=len(ch), states=r.distinct, transitions=r.generated)
            for (desc, files, tr), x in zip(ch, v):
                if x:
                    c.violation(desc, "record %s: %s" % x, dict(files, **{"trace.json": tr}))
    for case, conf, lay, ck in plan[:3]:
        c.sample({"layout": conf, "scripts": case.scripts})


ALL = {"P07": p07}


def entry(pid):
    def f(c):
        key = build.ensure_core()
        build.elements(key, "vflc")
        c.log("built")
        ALL[pid](c)
    return check.main(pid, f)


if __name__ == "__main__":
    sys.exit(entry(sys.argv[1]))
