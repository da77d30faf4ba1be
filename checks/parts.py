"""P16: partitioners (Partition.tla)."""
import glob, json, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, check, run, tlc
from concurrent.futures import ThreadPoolExecutor

KINDS = ["linear", "roundrobin", "simple", "linear", "single", "self", "roundrobin", "simple"]
CONFS = [(1, 2), (1, 3), (2, 1), (1, 4), (2, 2), (1, 2), (3, 1), (1, 5), (1, 8), (2, 3), (4, 1), (1, 1), (1, 7), (1, 4)]


class Case:
    def __init__(self, r, kind, R, T):
        self.kind, self.R, self.T = kind, R, T
        P = R * T
        n = self.n = r.choice([1, 2, P, P + 1, max(1, P - 1), r.randint(1, 8), r.randint(1, 14), r.randint(5, 24),
                               r.randint(2 * P, 3 * P + 2)])
        # where links may be attached: the component itself or subcomponents at any depth
        self.comps, at = [], [[] for _ in range(n)]
        for i in range(n):
            c = {"name": "c%d" % (i + 1), "type": "vfpt.Node", "subs": []}
            at[i] = [c["name"]]
            for k in range(r.choice([0, 0, 0, 1, 2])):
                s = {"id": "s%d" % k, "slot": "s", "num": k, "type": "vfpt.Sub"}
                c["subs"].append(s)
                at[i].append("%s/s%d" % (c["name"], k))
            if r.random() < 0.5:
                c["weight"] = r.choice([0.5, 1, 2, 10, 100.0])
            self.comps.append(c)
        m = r.choice([0, n // 2, n, n, 2 * n])
        pairs = []
        shape = r.choice(["any", "path", "star", "near"])
        for _ in range(m):
            a = r.randrange(n)
            b = {"any": r.randrange(n), "path": (a + 1) % n, "star": 0, "near": min(n - 1, a + r.randint(0, 2))}[shape]
            if r.random() < 0.4:
                a, b = b, a
            pairs.append((a, b))
        frac = r.choice([0, 0.15, 0.3, 0.3, 0.6, 0.9])
        used, self.links, self.nocut = {}, [], []
        for i, (a, b) in enumerate(pairs):
            ea, eb = r.choice(at[a]), r.choice(at[b])
            pa = used[ea] = used.get(ea, -1) + 1
            pb = used[eb] = used.get(eb, -1) + 1
            nc = r.random() < frac
            self.links.append({"name": "k%d" % i, "a": [ea, "p%d" % pa], "b": [eb, "p%d" % pb], "la": r.randint(1, 9),
                               "lb": r.randint(1, 9), "nocut": nc})
            if nc:
                self.nocut.append([a + 1, b + 1])
        self.deg = [0] * n
        for a, b in pairs:
            self.deg[a] += 1
            self.deg[b] += 1
        self.user = []
        self.bad = False
        if kind == "self" or r.random() < 0.3:
            self.user = [[r.randrange(R), r.randrange(T)] for _ in range(n)]
            if kind == "self" and r.random() < 0.25:
                self.bad = True
                i = r.randrange(n)
                self.user[i][r.randrange(2)] += max(R, T) + (r.random() < 0.3)
            for c, u in zip(self.comps, self.user):
                c["rank"] = u

    def model(self):
        return {"options": {}, "comps": self.comps, "links": self.links}


def one(c, i, cs):
    d = c.dir("k%d" % i)
    dump = os.path.join(d, "parts.txt")
    r = run.sst(["--run-mode=init", "--partitioner=sst." + cs.kind, "--output-partition=" + dump], d, model=cs.model(), ranks=cs.R,
                threads=cs.T, timeout=90)
    base = dict(kind=cs.kind, n=cs.n, ranks=cs.R, threads=cs.T, nocut=cs.nocut, user=cs.user, deg=cs.deg)
    if r.rc == "timeout":
        return None, "did not finish\n" + r.out[-800:]
    if r.rc != 0:
        if "Bad rank" in r.out or "unknown ranks" in r.out:
            return [dict(base, op="refused", pl=[], has=[])], r.out[-800:]
        return None, "exit code %s\n%s" % (r.rc, r.out[-1500:])
    logs = run.logs(d)
    pl, no, has = [], [], []
    for k in range(cs.n):
        recs = [x for f in logs.get("c%d" % (k + 1), []) for x in f]
        if len(recs) == 1 and (recs[0]["ranks"], recs[0]["threads"]) == (cs.R, cs.T):
            pl.append([recs[0]["rank"], recs[0]["thread"]])
            has.append(recs[0]["ports"])
        else:
            no.append(k + 1)
    l = [dict(base, op="placed", pl=pl, has=has)]
    # the placement as reported by the simulator: a component appears once
    seen = {}
    cur = None
    for ln in open(dump) if os.path.exists(dump) else []:
        m = re.match(r"Rank: (\d+)\.(\d+)", ln)
        if m:
            cur = [int(m.group(1)), int(m.group(2))]
        m = re.match(r"\s+c(\d+) \(ID", ln)
        if m:
            seen.setdefault(int(m.group(1)), []).append(cur)
    if cs.R * cs.T > 1 or seen:
        l.append(dict(base, op="placed", has=has, pl=[x for k in range(cs.n) for x in seen.get(k + 1, [])]))
        if l[0]["pl"] != l[1]["pl"] and not no:
            return None, "components are on %s, reported on %s" % (l[0]["pl"], l[1]["pl"])
    return l, "components not found once: %s" % no if no else ""


def p16(c):
    key = build.ensure_core()
    build.elements(key, "vfpt")
    c.log("built")
    c.tlc_exhaustive("MCPartition", workers=8)
    cases = []
    for i in range(c.q(180, 2500)):
        r = random.Random(c.seed * 1000003 + i)
        R, T = CONFS[(i // len(KINDS)) % len(CONFS)] if i % 3 else r.choice(CONFS)
        cases.append(Case(r, KINDS[i % len(KINDS)], R, T))
    traces, src = [], []
    with ThreadPoolExecutor(6) as ex:
        for i, (l, err) in enumerate(ex.map(lambda x: one(c, *x), enumerate(cases))):
            cs = cases[i]
            if l is None:
                c.violation("placing components failed: %s %dx%d" % (cs.kind, cs.R, cs.T), err, {"model.json": cs.model()})
                continue
            traces.append(dict(l=l))
            src.append((cs, err))
    c.log("%d models placed" % len(traces))
    v, res = tlc.validate("PartitionTrace", traces)
    c.add(states=res.distinct, transitions=res.generated, traces_validated_against_impl=len(traces))
    for x, tr, (cs, err) in zip(v, traces, src):
        if x:
            c.violation("%s partitioner, %d ranks, %d threads" % (cs.kind, cs.R, cs.T), "%s\n%s\n%s" % (x[1], err, tr["l"]),
                        {"model.json": cs.model()})
    for cs, _ in src[:3]:
        c.sample("%s %dx%d: %d components, %d links, %d not to be cut" % (cs.kind, cs.R, cs.T, cs.n, len(cs.links), len(cs.nocut)))
    c.cov["cases"] = {k: sum(1 for x in cases if x.kind == k) for k in set(KINDS)}
    c.assumptions += ["The Zoltan partitioner is not part of this build.",
                      "The simple partitioner is held to balanced numbers only where the number of partitions is a power of two."]


if __name__ == "__main__":
    sys.exit(check.main(sys.argv[1], {"P16": p16}[sys.argv[1]]))
