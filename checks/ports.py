"""P14: port modules (PortMod.tla)."""
import glob, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, check, run, tlc
from concurrent.futures import ThreadPoolExecutor

CONFS = [dict(), dict(r=2), dict(t=2), dict(t=3), dict(r=2, t=2), dict(r=3), dict(), dict(t=2, args=["--interthread-links"])]


class Case:
    def __init__(self, r, conf):
        R, T = conf.get("r", 1), conf.get("t", 1)
        self.conf = conf
        self.unit = r.choice([1, 1000])
        n = self.n = max(R * T, r.choice([1, 2, 3, 4, 6]))
        self.lay = [[i % R, (i // R) % T] for i in range(n)]
        if r.random() < 0.5:
            r.shuffle(self.lay)
        self.end = r.choice([8, 20, 40])
        self.kinds = ["" for _ in range(n)]
        self.ports, self.links, self.mods, self.pmods = [], [], [], []      # ports: (component, index)
        pairs = [(k, (k + 1) % n) for k in range(n)] + [(r.randrange(n), r.randrange(n)) for _ in range(r.randrange(3))]
        if n == 2:
            pairs = pairs[1:]
        for a, b in pairs:
            p, q = self.port(r, a), self.port(r, b)
            la, lb = r.choice([1, 2, 5, 9]), r.choice([1, 2, 3, 7])
            self.links.append((p, q, la, lb))
        self.stack = [self.modules(r, p) for p in range(len(self.ports))]
        self.runs = [[] for _ in range(n)]
        v = 0
        for c in range(n):
            for _ in range(r.choice([3, 10, 30])):
                v += 1
                burst = r.choice([1, 1, 3])
                t, p = r.randrange(1, self.end + 1), r.randrange(len(self.kinds[c]))
                for _ in range(burst):
                    self.runs[c].append((t, p, v, r.choice([0, 0, 0, 1, 3])))
                    v += 1
        self.reply = [r.choice([0, 0, 1, 2, 3]) for _ in range(n)]

    def port(self, r, c):
        self.ports.append((c, len(self.kinds[c])))
        self.kinds[c] += r.choice("hhhhp")
        return len(self.ports) - 1

    def modules(self, r, p):
        c, i = self.ports[p]
        poll = self.kinds[c][i] == "p"
        seq = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5])):
            send = r.randrange(2)
            recv = 0 if poll else r.randrange(2)
            if not send and not recv and r.random() < 0.7:
                send = 1
            plan = "".join(r.choice("pppmmxxc") for _ in range(r.choice([1, 2, 3, 7])))
            seq.append(dict(kind="m", plan=plan, add=100000 * r.randrange(1, 50), send=send, recv=recv, pr=0))
        # a module of the core between two that record what they see
        if r.random() < 0.25:
            send = poll or r.random() < 0.5
            m = lambda: dict(kind="m", plan="pm", add=100000, send=int(send), recv=int(not send), pr=0)
            seq += [m(), dict(kind="d", plan="p", add=0, send=int(send), recv=int(not send), pr=r.choice([0, 50, 100])), m()]
        ids = []
        for m in seq:
            self.mods.append(dict(m, port=p + 1, plan=list(m["plan"])))
            ids.append(len(self.mods))
            q = {"id": len(self.mods), "who": "c%d" % c, "send": m["send"], "recv": m["recv"], "plan": m["plan"], "add": m["add"]}
            t = "vfpm.Mod"
            if m["kind"] == "d":
                t, q = "sst.portmodules.random_drop", {"drop_prob": {0: "0", 50: "0.5", 100: "1.1"}[m["pr"]], "drop_on_send": m["send"], "rngseed": r.randrange(1, 99)}
            self.pmods.append({"comp": "c%d" % c, "port": "p%d" % i, "type": t, "params": q})
        return ids

    def model(self):
        comps = [{"name": "c%d" % c, "type": "vfpm.Node", "rank": self.lay[c], "params": {
            "unit": self.unit, "end": self.end, "kinds": self.kinds[c], "reply": self.reply[c],
            "runs": ",".join("%d:%d:%d:%d" % x for x in self.runs[c])}} for c in range(self.n)]
        e = lambda p: ["c%d" % self.ports[p][0], "p%d" % self.ports[p][1]]
        return {"unit": self.unit, "comps": comps, "pmods": self.pmods,
                "links": [{"a": e(p), "b": e(q), "la": la, "lb": lb} for p, q, la, lb in self.links]}

    def head(self):
        peer, lat = [0] * len(self.ports), [0] * len(self.ports)
        for p, q, la, lb in self.links:
            peer[p], peer[q] = q + 1, p + 1
            lat[p] = la * self.unit
            lat[q] = lb * self.unit
        return dict(mods=self.mods, stack=self.stack, peer=peer, lat=lat, nc=self.n,
                    poll=[1 if self.kinds[c][i] == "p" else 0 for c, i in self.ports], comp=[c + 1 for c, i in self.ports])


def records(case, logs, lo=None, hi=None):
    gid = {x: p + 1 for p, x in enumerate(case.ports)}
    recs = []
    for who, parts in logs.items():
        if who[0] != "c" or not who[1:].isdigit():
            continue
        c = int(who[1:])
        i = 0
        for part in parts:
            for x in part:
                i += 1
                t = x.get("t", 0)
                if hi is not None and t >= hi:
                    continue
                y = dict(x=x["x"], c=c + 1, t=t, v=x.get("v", 0), p=0, m=x.get("m", 1), d=x.get("d", 0), n=x.get("n", 0), g=x.get("g", 0))
                if x["x"] in ("snd", "got"):
                    y["p"] = gid[(c, x["p"])]
                recs.append((t, c, i, y))
    # what a component does at one time is in its log's order
    recs.sort(key=lambda x: (x[0], x[1], x[2]))
    return [x[3] for x in recs]




def p14(c):
    c.tlc_exhaustive("MCPortMod", workers=8)
    plan = []
    for k in range(c.q(112, 1600)):
        r = random.Random(c.seed * 9000011 + k)
        plan.append((Case(r, CONFS[k % len(CONFS)]), k % 3 == 2, r))

    def go(x):
        i, (case, ck, r) = x
        conf = case.conf
        args = ["--partitioner=sst.self"] + conf.get("args", [])
        ck = ck and not conf.get("args")
        if ck:
            args.append("--checkpoint-sim-period=%dps" % (r.choice([3, 7]) * case.unit))
        m = case.model()
        y = run.sst(args, c.dir("s%d" % i), model=m, ranks=conf.get("r", 1), threads=conf.get("t", 1), timeout=90)
        rs = []
        if ck and y.rc == 0:
            fs = sorted(glob.glob(y.dir + "/**/*.sstcpt", recursive=True))
            r.shuffle(fs)
            for f in fs[:2]:
                T = int(os.path.basename(f)[:-len(".sstcpt")].split("_")[-1])
                lay = r.choice([(conf.get("r", 1), conf.get("t", 1)), (1, 1), (1, 2), (2, 1)])
                a = [] if lay == (conf.get("r", 1), conf.get("t", 1)) else ["--num-threads=%d" % lay[1]]
                if lay[0] * lay[1] <= case.n:
                    rs.append((lay, T, run.sst(a, c.dir("s%d_r%d" % (i, len(rs))), sdl=f, ranks=lay[0], timeout=90)))
        return i, case, m, y, rs

    def done(y, case):
        v, u = y.end
        f = {"ps": 1, "ns": 1000, "us": 10 ** 6}.get(u)
        return dict(x="done", c=1, t=int(round(float(v) * f)) if f else case.end * case.unit, v=0, p=0, m=1, d=0, n=0, g=0)

    trs = []
    with ThreadPoolExecutor(6) as ex:
        for i, case, m, y, rs in ex.map(go, list(enumerate(plan))):
            desc = "case %d %s" % (i, case.conf)
            files = {"model.json": m, "out.txt": y.out, "cmd.txt": " ".join(y.cmd)}
            c.add(simulator_runs=1 + len(rs))
            for what, T, z in [(desc, None, y)] + [(desc + " restarted at %d as %dx%d" % ((T,) + lay), T, z) for lay, T, z in rs]:
                f = dict(files, **{"this_out.txt": z.out, "this_cmd.txt": " ".join(z.cmd)})
                if z.rc != 0 or not z.end:
                    c.violation(what + ": fails", "exit code %s\n%s" % (z.rc, z.out[-1500:]), f)
                    continue
                l = records(case, run.logs(y.dir), hi=T) if T is not None else []
                l += records(case, run.logs(z.dir)) + [done(z, case)]
                for x in l:
                    if x["x"] == "mod":
                        x["dl"], x["d"] = x["d"], 0
                    else:
                        x["dl"] = ""
                trs.append((what, f, dict(case.head(), l=l)))
                c.add(module_calls=sum(1 for x in l if x["x"] == "mod"), sends=sum(1 for x in l if x["x"] == "snd"), deliveries=sum(1 for x in l if x["x"] == "got"))
    n = 8
    chunks = [trs[i::n] for i in range(n) if trs[i::n]]
    with ThreadPoolExecutor(n) as ex:
        for ch, (v, r) in zip(chunks, ex.map(lambda ch: tlc.validate("PortModTrace", [x[2] for x in ch], workers=1, timeout=600), chunks)):
            c.add(traces_validated_against_impl=len(ch), states=r.distinct, transitions=r.generated)
            for (desc, files, tr), x in zip(ch, v):
                if x:
                    c.violation(desc, "record %s: %s" % x, dict(files, **{"trace.json": tr}))
    for case, _, _ in plan[:3]:
        c.sample({"layout": case.conf, "modules": case.mods, "sends": case.runs})


ALL = {"P14": p14}


def entry(pid):
    def f(c):
        key = build.ensure_core()
        build.elements(key, "vfpm")
        c.log("built")
        ALL[pid](c)
    return check.main(pid, f)


if __name__ == "__main__":
    sys.exit(entry(sys.argv[1]))
