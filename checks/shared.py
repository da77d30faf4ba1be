"""P11: shared arrays, maps and sets (Shared.tla)."""
import glob, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, check, run, tlc
from concurrent.futures import ThreadPoolExecutor

CONFS = [dict(), dict(r=2), dict(t=2), dict(r=3), dict(r=2, t=2), dict(t=4), dict(r=2), dict()]
ERRORS = ["value", "value2", "published", "late", "lateini", "twice", "mode", "iv", "type", "race"]


class Case:
    def __init__(self, r, conf, err):
        self.r, self.conf, self.err = r, conf, err
        R, self.T = conf.get("r", 1), conf.get("t", 1)
        self.n = n = max(R * self.T, r.choice([2, 3, 4, 6]))
        self.lay = [[i % R, (i // R) % self.T] for i in range(n)]
        if r.random() < 0.5:
            r.shuffle(self.lay)
        self.phases = r.choice([1, 2, 3, 4])
        self.end = r.choice([4, 9, 12])
        self.ops = [[] for _ in range(n)]             # (phase, op, slot, a, b, text)
        self.objs = []
        self.nslots = [0] * n
        for o in range(r.choice([1, 2, 3])):
            self.object(o + 1)
        if err:
            self.error()
        for l in self.ops:
            l.sort(key=lambda x: x[0])                # stable: order of generation inside a phase

    def wphase(self, lo=-1):
        # with threads, writes and reads of one object are in different phases
        c = [p for p in range(lo, self.phases + 1) if self.T == 1 or p == -1 or p % 2 == 1]
        return self.r.choice(c) if c else None

    def object(self, o):
        r = self.r
        ty = r.choice("ABCMTSMA")
        arr = ty in "ABC"
        md = r.choice("FIN")
        iv = 0 if not arr or r.random() < 0.6 else (1 if ty == "B" else 9)
        nk = r.choice([1, 3, 6])
        fixed = {k: (r.randrange(2) if ty == "B" else r.randrange(1, 9)) for k in range(nk)}
        if md == "I" and arr:
            for k in fixed:
                if fixed[k] == iv:
                    fixed[k] = 1 - iv if ty == "B" else iv - 1
        owner = {k: r.randrange(self.n) for k in range(nk)}
        ob = dict(o=o, ty=ty, md=md, iv=iv, fixed=fixed, owner=owner, inst={}, nk=nk)
        self.objs.append(ob)
        for c in range(self.n):
            if r.random() < 0.2:
                continue
            for _ in range(2 if r.random() < 0.15 else 1):
                slot = self.nslots[c]
                self.nslots[c] += 1
                p0 = self.wphase()
                ln = 0
                if arr and r.random() < 0.85:
                    ln = r.randrange(1, nk + 1)
                l = self.ops[c]
                l.append((p0, "i", slot, ln, iv, "%s%s%d" % (ty, md, o)))
                last = p0
                if not arr or ln:
                    for _ in range(r.choice([0, 1, 2, 5])):
                        p = self.wphase(p0)
                        k = r.randrange(ln) if arr else r.randrange(nk)
                        if md == "N":
                            if owner[k] != c or (self.T == 1 and len([1 for x in ob["inst"] if x[0] == c])):
                                continue
                            v = r.randrange(2) if ty == "B" else r.randrange(1, 9)
                        else:
                            v = fixed[k]
                        l.append((p, "w", slot, k, v, ""))
                        last = max(last, p)
                pub = None
                if r.random() < 0.7:
                    pub = r.randrange(last, self.phases + 1)
                    l.append((pub, "p", slot, 0, 0, ""))
                    if r.random() < 0.2:
                        l.append((min(pub + 1, self.phases), "p", slot, 0, 0, ""))
                for p in list(range(p0, self.phases + 1)) + [1000, 2000 + self.end // 2, 3000, 4000]:
                    if p < 1000 and self.T > 1 and p % 2 == 1:
                        continue
                    if r.random() < 0.6:
                        l.append((p, "r", slot, 0, 0, ""))
                    if not arr and r.random() < 0.4:
                        l.append((p, "l", slot, r.randrange(nk + 1), 0, ""))
                for t in range(1, self.end):
                    if r.random() < 0.2:
                        l.append((2000 + t, r.choice("rf" if arr else "rfl"), slot, r.randrange(nk + 1), 0, ""))
                ob["inst"][(c, slot)] = dict(p0=p0, ln=ln, pub=pub, last=last)

    def error(self):
        """One operation that must fail."""
        r = self.r
        ob = r.choice(self.objs)
        if not ob["inst"]:
            return
        arr, ty = ob["ty"] in "ABC", ob["ty"]
        (c, slot), i = r.choice(sorted(ob["inst"].items()))
        o, e = ob["o"], self.err
        other = {"A": "M", "B": "A", "C": "S", "M": "T", "T": "B", "S": "C"}[ty]
        lateph = self.phases
        w = lambda ph, k, v: self.ops[c].append((ph, "w", slot, k, v, ""))
        new = lambda: (self.nslots.__setitem__(c, self.nslots[c] + 1), self.nslots[c] - 1)[1]
        if e in ("value", "value2", "race") and ob["md"] != "N" and (not arr or i["ln"]):
            k = r.randrange(i["ln"]) if arr else r.randrange(ob["nk"])
            v = 1 - ob["fixed"][k] if ty == "B" else ob["fixed"][k] + 1 + (ob["fixed"][k] + 1 == ob["iv"])
            if ob["md"] == "I" and v == ob["iv"] and arr:
                return
            if e == "race":
                # also somebody else in the same phase, who could be first
                self.ops[c] = [x for x in self.ops[c] if not (x[1] == "p" and x[2] == slot)]
                for (c2, s2), j in sorted(ob["inst"].items()):
                    if c2 != c and (not arr or j["ln"] > k):
                        self.ops[c2] = [x for x in self.ops[c2] if not (x[1] == "p" and x[2] == s2)]
                        p = max(i["p0"], j["p0"])
                        self.ops[c2].append((p, "w", s2, k, ob["fixed"][k], ""))
                        w(p, k, v)
                        break
                return
            self.ops[c] = [x for x in self.ops[c] if not (x[1] == "p" and x[2] == slot)]
            if e == "value":
                w(i["p0"], k, ob["fixed"][k])
            w(lateph, k, v)
        elif e == "published" and (not arr or i["ln"]):
            ph = lateph if i["pub"] is None else i["pub"]
            if i["pub"] is None:
                self.ops[c].append((ph, "p", slot, 0, 0, ""))
            w(ph if r.random() < 0.5 else lateph, 0, ob["fixed"][0])
        elif e == "late" and (not arr or i["ln"]):
            self.ops[c] = [x for x in self.ops[c] if not (x[1] == "p" and x[2] == slot)]
            w(r.choice([1000, 2000 + self.end // 2, 3000, 4000]), 0, ob["fixed"][0])
        elif e == "lateini":
            self.ops[c].append((r.choice([1000, 2000 + self.end // 2, 3000, 4000]), "i", new(), 4 if arr else 0, ob["iv"], "%s%s%d" % (ty, ob["md"], o)))
        elif e == "twice":
            self.ops[c].append((lateph, "i", slot, i["ln"], ob["iv"], "%s%s%d" % (ty, ob["md"], o)))
        elif e == "mode":
            self.ops[c].append((lateph, "i", new(), 4 if arr else 0, ob["iv"], "%s%s%d" % (ty, {"F": "I", "I": "N", "N": "F"}[ob["md"]], o)))
        elif e == "iv" and arr:
            self.ops[c].append((lateph, "i", new(), 4, 1 - ob["iv"] if ty == "B" else ob["iv"] + 1, "%s%s%d" % (ty, ob["md"], o)))
        elif e == "type":
            self.ops[c].append((lateph, "i", new(), 2 if other in "ABC" else 0, 0, "%s%s%d" % (other, ob["md"], o)))

    def model(self):
        return {"unit": 1, "comps": [{"name": "c%d" % c, "type": "vfsh.Node", "rank": self.lay[c], "params": {
            "phases": self.phases, "end": self.end, "ports": 2 if self.n > 1 else 0,
            "script": ",".join(":".join(str(y) for y in x) for x in self.ops[c])}} for c in range(self.n)],
            "links": [{"a": ["c%d" % c, "p0"], "b": ["c%d" % ((c + 1) % self.n), "p1"], "la": 3, "lb": 3} for c in range(self.n)] if self.n > 1 else []}


def records(case, logs):
    recs = []
    for who, parts in logs.items():
        if who[0] != "c" or not who[1:].isdigit():
            continue
        for part in parts:
            for i, x in enumerate(part):
                recs.append((x.get("ts", 0), i, int(who[1:]), x))
    recs.sort(key=lambda x: (x[0], x[1]))
    out = []
    for _, _, c, x in recs:
        y = dict(x=x["x"], d=x.get("d", 1), ph=min(x.get("ph", 0), 1000), c=c + 1, r=x.get("r", 0) + 1, i=x.get("i", 0) + 1, a=x.get("a", 0), b=x.get("b", 0),
                 o=0, ty="", md="", v=x.get("v", 0), n=x.get("n", 0), e=x.get("e", 0), f=x.get("f", 0), g=x.get("g", 0),
                 l=x.get("c", []), lb=x.get("lb", 0), ub=x.get("ub", 0), one=1 if case.T == 1 else 0, nr=0)
        if x["x"] == "i":
            y["ty"], y["md"], y["o"] = x["t"][0], x["t"][1], int(x["t"][2:])
        out.append(y)
    return out


def mark(x, **kw):
    return dict(dict(x=x, d=1, ph=0, c=1, r=1, i=1, a=0, b=0, o=0, ty="", md="", v=0, n=0, e=0, f=0, g=0, l=[], lb=0, ub=0, one=0, nr=0), **kw)


def p11(c):
    c.tlc_exhaustive("MCShared", workers=8)
    plan = []
    for k in range(c.q(160, 2400)):
        r = random.Random(c.seed * 7000003 + k)
        conf = CONFS[k % len(CONFS)]
        err = ERRORS[(k // 8) % len(ERRORS)] if k % 3 == 0 else None
        plan.append((Case(r, conf, err), k % 3 == 1 or err == "late", r))

    def go(x):
        i, (case, ck, r) = x
        conf = case.conf
        args = ["--partitioner=sst.self"]
        if ck:
            args.append("--checkpoint-sim-period=%dps" % r.choice([1, 3, 5]))
        m = case.model()
        y = run.sst(args, c.dir("s%d" % i), model=m, ranks=conf.get("r", 1), threads=conf.get("t", 1), timeout=90)
        rs = []
        if ck and y.rc != "timeout":
            fs = sorted(glob.glob(y.dir + "/**/*.sstcpt", recursive=True))
            r.shuffle(fs)
            for f in fs[:1]:
                lay = r.choice([(conf.get("r", 1), conf.get("t", 1)), (1, 1), (1, 2), (2, 1), (3, 1)])
                a = [] if lay == (conf.get("r", 1), conf.get("t", 1)) else ["--num-threads=%d" % lay[1]]
                if lay[0] * lay[1] <= case.n:
                    rs.append((lay, run.sst(a, c.dir("s%d_r" % i), sdl=f, ranks=lay[0], timeout=90)))
        return i, case, m, y, rs

    trs = []
    with ThreadPoolExecutor(6) as ex:
        for i, case, m, y, rs in ex.map(go, list(enumerate(plan))):
            desc = "case %d %s %s" % (i, case.conf, case.err or "")
            files = {"model.json": m, "out.txt": y.out, "cmd.txt": " ".join(y.cmd)}
            head = dict(nr=case.conf.get("r", 1), no=len(case.objs), nc=case.n, ns=max(case.nslots + [1]))
            c.add(simulator_runs=1 + len(rs), failing_runs=1 if y.rc else 0)
            if y.rc == "timeout":
                c.violation(desc + ": the simulation hangs", y.out[-1500:], files)
                continue
            l = records(case, run.logs(y.dir))
            trs.append((desc, files, dict(head, l=l + [mark("exit", v=0 if y.rc == 0 and y.end else 1)])))
            c.add(operations=sum(1 for x in l if x["x"] != "-" and x["d"] == 1))
            for lay, z in rs:
                d2 = desc + " restarted as %dx%d" % lay
                f2 = dict(files, **{"restart.txt": z.out, "restart_cmd.txt": " ".join(z.cmd)})
                if z.rc == "timeout" or (z.rc != 0 and y.rc == 0):
                    c.violation(d2 + ": fails", "exit code %s\n%s" % (z.rc, z.out[-1500:]), f2)
                    continue
                # the operations of the first run up to the run, then those of the restarted one
                pre = [x for x in records(case, {w: [[q for q in p if q.get("ph", 0) <= 1000] for p in v] for w, v in run.logs(y.dir).items()})]
                trs.append((d2, f2, dict(head, l=pre + [mark("R", nr=lay[0])] + records(case, run.logs(z.dir)) + [mark("exit", v=0 if z.rc == 0 and z.end else 1)])))
    n = 8
    chunks = [trs[i::n] for i in range(n) if trs[i::n]]
    with ThreadPoolExecutor(n) as ex:
        for ch, (v, r) in zip(chunks, ex.map(lambda ch: tlc.validate("SharedTrace", [x[2] for x in ch], workers=1, timeout=600), chunks)):
            c.add(traces_validated_against_impl=len(ch), states=r.distinct, transitions=r.generated)
            for (desc, files, tr), x in zip(ch, v):
                if x:
                    c.violation(desc, "record %s: %s" % x, dict(files, **{"trace.json": tr}))
    for case, _, _ in plan[:3]:
        c.sample({"layout": case.conf, "operations": case.ops, "planned error": case.err})


ALL = {"P11": p11}


def entry(pid):
    def f(c):
        key = build.ensure_core()
        build.elements(key, "vfsh")
        c.log("built")
        ALL[pid](c)
    return check.main(pid, f)


if __name__ == "__main__":
    sys.exit(entry(sys.argv[1]))
