"""P12 P13: statistics (Stats.tla)."""
import csv, glob, json, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, check, kcheck, run, tlc
from concurrent.futures import ThreadPoolExecutor

KINDS = ["i32", "u32", "i64", "u64", "f32", "f64"]
TYPES = {"acc": "sst.AccumulatorStatistic", "hist": "sst.HistogramStatistic", "uniq": "sst.UniqueCountStatistic"}
FIX = {"acc": ["Sum", "SumSQ", "Count", "Min", "Max"], "uniq": ["UniqueItems"]}


def time_text(r, steps):
    """A text for a number of core time steps (ps)."""
    forms = ["%dps" % steps]
    if steps % 1000 == 0:
        forms += ["%dns" % (steps // 1000), "%d.0ns" % (steps // 1000)]
    if steps and 10**12 % steps == 0:
        forms += ["%dHz" % (10**12 // steps)]
        if (10**12 // steps) % 1000 == 0:
            forms += ["%dkHz" % (10**9 // steps)]
    return r.choice(forms)


class Case:
    """Components with statistics and a script of calls on them."""

    def __init__(self, r, ncomp=None, timing=True, ops=None, glob=False, load=False, group=False, late=True, stop=False):
        self.r = r
        self.unit = r.choice([1, 1000, 250])
        self.end = r.choice([24, 40, 60])
        self.stop = r.choice([self.end, self.end - 4, self.end + 3]) if stop else 0
        self.ncomp = ncomp or r.choice([1, 1, 2])
        self.comps = []
        self.level = r.choice([0, 3, 5, 8]) if load else 8
        self.load = load
        self.groups = []
        self.out = r.choice(["csv", "csv", "txt"])
        gcfg = None
        if group:
            gcfg = dict(name="grp", per=r.choice([0, 3, 5, 8]), names=r.sample(range(8), 3), out=r.random() < 0.6)
            self.groups.append(gcfg)
        for k in range(self.ncomp):
            allcfg = self.cfg(r, timing) if load else None
            stats, used = [], {}
            for i in range(r.choice([2, 3, 5])):
                n = r.randrange(8)
                c = used.get(n)
                if c is None:
                    c = dict(allcfg) if load else self.cfg(r, timing)
                    if load:
                        c["lvl"] = n + 1
                    if gcfg and n in gcfg["names"]:
                        # one description for all components of the group
                        c = gcfg.setdefault("cfgs", {}).setdefault(n, c)
                        c.update(period=gcfg["per"], limit=0, grp=1)
                    used[n] = c
                kind = r.choice(KINDS if c["minv"] >= 0 else [x for x in KINDS if x[0] != "u"])
                s = dict(c, n=n, sub="" if i == 0 else r.choice(["", "a%d" % i]), kind=kind, mul=1, one=1)
                if any(x["n"] == n and x["sub"] == s["sub"] for x in stats) or any(x["n"] == n for x in stats) and not s["sub"]:
                    continue
                if any(x["n"] == n and x["kind"] != kind for x in stats):
                    s["kind"] = kind = [x["kind"] for x in stats if x["n"] == n][0]
                if kind[0] == "f":
                    s["one"] = r.choice([1, 4])
                if kind in ("i64", "u64", "f64") and c["type"] != "hist":
                    s["mul"] = r.choice([1, 2**15])
                stats.append(s)
            self.comps.append(dict(stats=stats, clk=r.choice([0, 0, 1, 3]), script=[]))
        nops = ops or r.choice([10, 30, 50])
        for ci, c in enumerate(self.comps):
            t = 0
            times = sorted(r.randrange(0, self.end) for _ in range(nops))
            for t in times:
                s = r.randrange(len(c["stats"]))
                x = c["stats"][s]
                op = r.choices("anedocfr", [20, 8, 1, 1, 2, 1, 1, 1] if late else [20, 8, 0, 0, 0, 0, 0, 0])[0]
                if op in "ed" and (x["start"] or x["stop"]) and r.random() < 0.7:
                    op = "a"
                if op == "c" and x["limit"]:
                    op = "a"
                if op == "o" and x.get("grp"):
                    op = "a"
                if t == 0 and (op in "o" or x["limit"]):
                    op = "f"
                v = self.value(r, x)
                n = r.choice([0, 1, 2, 3, 7]) if op == "n" else 0
                if op in "fr":
                    v = r.randrange(2)
                c["script"].append(dict(t=t, op=op, s=s, v=v, n=n))
            if glob and self.ncomp == 1 and not self.groups:
                t = r.randrange(1, self.end)
                c["script"].append(dict(t=t, op="g", s=0, v=0, n=0))
                c["script"].sort(key=lambda o: o["t"])
            fin = self.end if ci == 0 else r.randrange(1, self.end)
            c["script"].append(dict(t=fin, op="x", s=0, v=0, n=0))
            c["script"].sort(key=lambda o: o["t"])
            # some data at and after the end of the vote
            if ci == 0 and r.random() < 0.5:
                s = r.randrange(len(c["stats"]))
                c["script"].append(dict(t=self.end, op="a", s=s, v=self.value(r, c["stats"][s]), n=0))

    def value(self, r, x):
        if x["type"] == "hist":
            lo, hi = x["minv"] - 3, x["minv"] + x["width"] * x["nbins"] + 3
            e = x["minv"] + x["width"] * r.randrange(x["nbins"] + 1)
            v = r.choice([r.randint(lo, hi), r.randint(lo, hi), e, e - 1, e * 1])
            v = v * x["one"] + (r.randrange(x["one"]) if x["one"] > 1 else 0)
        elif x["type"] == "uniq":
            v = r.randint(-4, 4)
        else:
            v = r.choice([r.randint(-60, 60), r.randint(-60, -1), r.randint(1, 60)])
        return abs(v) if x["kind"][0] == "u" else v

    def cfg(self, r, timing):
        c = dict(type=r.choice(["acc", "acc", "hist", "uniq"]), period=0, limit=0, start=0, stop=0, reset=r.randrange(2),
                 minv=0, width=1, nbins=1, oob=1, dump=1)
        if c["type"] == "hist":
            c.update(minv=r.choice([0, 0, 5, 3, 10, -7, -20]), width=r.choice([1, 3, 5, 10]), nbins=r.choice([1, 2, 4, 7]),
                     oob=r.choice([1, 1, 0]), dump=r.choice([1, 1, 0]))
        if timing:
            w = r.randrange(4)
            if w == 0:
                c["period"] = r.choice([1, 2, 3, 4, 5, 6, 8, 10, 12, self.end, self.end + 1])
            elif w == 1:
                c["limit"] = r.choice([1, 2, 3, 5])
            if r.random() < 0.35:
                c["start"] = r.choice([1, r.randrange(1, self.end), self.end + 5])
            if r.random() < 0.35:
                c["stop"] = r.choice([1, r.randrange(1, self.end), self.end + 5])
                if c["stop"] == c["start"]:
                    c["stop"] += 1
        return c

    def params(self, c):
        r, u = self.r, self.unit
        p = {"type": TYPES[c["type"]], "resetOnOutput": r.choice(["1", "true"]) if c["reset"] else r.choice(["0", "false"])}
        if not c.get("grp"):
            if c["limit"]:
                p["rate"] = r.choice(["%d events", "%devents", "%d event"]) % c["limit"]
            elif c["period"]:
                p["rate"] = time_text(r, c["period"] * u)
            elif r.random() < 0.5:
                p["rate"] = r.choice(["0ns", "0 events", "0s"])
        if c["start"]:
            p["startat"] = "%dps" % (c["start"] * u)
        if c["stop"]:
            p["stopat"] = "%dps" % (c["stop"] * u)
        if c["type"] == "hist":
            p.update(minvalue=str(c["minv"]), binwidth=str(c["width"]), numbins=str(c["nbins"]),
                     includeoutofbounds=str(c["oob"]), dumpbinsonoutput=str(c["dump"]))
        return p

    def model(self):
        comps, stats = [], []
        gs = {g["name"]: {} for g in self.groups}
        for k, c in enumerate(self.comps):
            comps.append({"name": "c%d" % k, "type": "vfstat.Node", "params": {
                "unit": self.unit, "clk": c["clk"],
                "stats": ",".join("s%d:%s:%s:%d:%d" % (s["n"], s["sub"], s["kind"], s["mul"], s["one"]) for s in c["stats"]),
                "script": ",".join("%d:%s:%d:%d:%d" % (o["t"], o["op"], o["s"], o["v"], o["n"]) for o in c["script"])}})
            if "rank" in c:
                comps[-1]["rank"] = c["rank"]
            if self.load:
                stats.append({"comp": "c%d" % k, "name": "*", "params": self.params(c["stats"][0])})
                continue
            seen = set()
            for s in c["stats"]:
                if s["n"] in seen:
                    continue
                seen.add(s["n"])
                if s.get("grp"):
                    gs["grp"].setdefault(s["n"], self.params(s))
                else:
                    stats.append({"comp": "c%d" % k, "name": "s%d" % s["n"], "params": self.params(s)})
        m = {"unit": self.unit, "comps": comps, "stats": stats, "statload": self.level, "links": [],
             "statout": ["sst.statOutput" + self.out.upper(), {"filepath": "out." + self.out}]}
        if self.out == "txt":
            m["statout"][1].update(outputinlineheader="1", outputtopheader="0")
        if self.ncomp > 1:
            for k in range(self.ncomp if self.ncomp > 2 else 1):
                m["links"].append({"a": ["c%d" % k, "p0"], "b": ["c%d" % ((k + 1) % self.ncomp), "p1"], "la": 4, "lb": 4})
        for g in self.groups:
            sg = {"name": g["name"], "freq": time_text(self.r, g["per"] * self.unit) if g["per"] else None,
                  "stats": [["s%d" % n, p] for n, p in gs["grp"].items()],
                  "comps": ["c%d" % k for k, c in enumerate(self.comps) if any(s.get("grp") for s in c["stats"])]}
            if g["out"]:
                sg["out"] = ["sst.statOutputCSV", {"filepath": "grp.csv"}]
            if sg["stats"]:
                m["sgroups"] = [sg]
        return m


def number(txt, mul, div):
    """The written number divided by mul / div, None if that is not an integer."""
    from fractions import Fraction
    f = Fraction(txt) * div / mul
    return f.numerator if f.denominator == 1 and abs(f) < 2**31 else None


def columns(s):
    if s["type"] != "hist":
        return FIX[s["type"]]
    c = ["BinsMinValue", "BinsMaxValue", "BinWidth", "TotalNumBins", "Sum", "SumSQ", "NumActiveBins", "NumItemsCollected", "NumItemsBinned"]
    if s["oob"]:
        c += ["NumOutOfBounds-MinValue", "NumOutOfBounds-MaxValue"]
    if s["dump"]:
        c += ["Bin%d:%d-%d" % (b, s["minv"] + b * s["width"], s["minv"] + (b + 1) * s["width"] - 1) for b in range(s["nbins"])]
    return c


def raw_rows(d):
    """All rows written in directory d: (component, stat, subid, type, time, {column: text})."""
    res = []
    for f in sorted(glob.glob(os.path.join(d, "out*.csv")) + glob.glob(os.path.join(d, "grp*.csv"))):
        L = [x.rstrip("\n").split(", ") for x in open(f)]
        if not L:
            continue
        h = L[0]
        for x in L[1:]:
            if len(x) != len(h):
                res.append(("?", "", "", "garbled", 0, {"line": ", ".join(x)}))
                continue
            col = {}
            for n, v in zip(h[6:], x[6:]):
                col.setdefault(n, v)
            res.append((x[0], x[1], x[2], x[3], int(x[4]), col))
    for f in sorted(glob.glob(os.path.join(d, "out*.txt"))):
        for x in open(f):
            m = re.match(r"(c\d+)\.(s\d+)(?:\.(\w+))? : (\w+) : SimTime = (\d+); Rank = \d+; (.*)$", x.rstrip())
            if not m:
                res.append(("?", "", "", "garbled", 0, {"line": x}))
                continue
            col = {}
            for y in m[6].split("; "):
                if " = " in y:
                    n, v = y.rstrip(";").split(" = ")
                    col[n] = v
            res.append((m[1], m[2], m[3] or "", m[4], int(m[5]), col))
    return res


SHORT = {"i32": "i32", "u32": "u32", "i64": "i64", "u64": "u64", "f32": "f32", "f64": "f64"}
TNAME = {"acc": "Accumulator", "hist": "Histogram", "uniq": "UniqueCount"}


def stat_rows(raw, k, s, unit):
    """Rows of one statistic for the trace, or a text if one of them cannot be right whatever was added."""
    out = []
    for comp, n, sub, typ, t, col in raw:
        if (comp, n, sub) != ("c%d" % k, "s%d" % s["n"], s["sub"]):
            continue
        if typ != TNAME[s["type"]]:
            return "type %s" % typ
        if t % unit:
            return "written at %d, between time units" % t
        f = []
        low = {a.lower(): b for a, b in col.items()}
        for cn in columns(s):
            vt = cn in ("Sum", "SumSQ", "Min", "Max", "BinsMinValue", "BinsMaxValue")
            ct = SHORT[s["kind"]] if vt else "u32" if cn in ("BinWidth", "TotalNumBins", "NumActiveBins") else "u64"
            key = "%s.%s" % (cn, ct)
            if key not in col:
                return "no column %s in %s" % (key, sorted(col))
            sq = 2 if cn == "SumSQ" else 1
            mul, div = (s["mul"]**sq, s["one"]**sq) if vt else (1, 1)
            if cn == "BinWidth":
                div = s["one"]
            x = number(col[key], mul, div)
            if x is None:
                return "column %s is %s, no sum of the values added" % (key, col[key])
            f.append(x)
        out.append({"t": t // unit, "f": f})
    return out


def traces(case, hist, raw, endt, ph):
    """One trace per statistic. hist: {component: [(time, op)]} as executed."""
    res = []
    for k, c in enumerate(case.comps):
        for i, s in enumerate(c["stats"]):
            l = []
            for t, o in hist["c%d" % k]:
                if o["op"] == "g" or (o["s"] == i and o["op"] != "x"):
                    l.append({"op": "o" if o["op"] == "g" else o["op"], "t": t, "v": o["v"], "n": o["n"]})
            rows = stat_rows(raw, k, s, case.unit)
            cfg = {a: s[a] for a in ("type", "period", "limit", "start", "stop", "reset", "nbins", "oob", "dump", "one")}
            cfg["minv"], cfg["width"] = s["minv"] * s["one"], s["width"] * s["one"]
            l.append({"op": "end", "t": endt, "v": 0, "n": 0, "ph": ph(k)})
            for x in l[:-1]:
                x["ph"] = 0
            if case.load and s["lvl"] > case.level:
                if rows:
                    rows = "written although its level is above the load level"
                res.append((k, s, None, rows))
            else:
                res.append((k, s, {"c": cfg, "l": l, "rows": rows}, rows))
    return res


def history(case, outdir):
    h = {}
    for who, runs in run.logs(outdir).items():
        k = int(who[1:])
        L = [x for part in runs for x in part]
        h[who] = [(x["t"], case.comps[k]["script"][x["i"]]) for x in L]
    return h


class Batch:
    def __init__(self, c):
        self.c, self.items = c, []

    def put(self, desc, files, trs):
        for k, s, tr, rows in trs:
            what = "c%d.s%d.%s %s %s" % (k, s["n"], s["sub"], s["type"], s["kind"])
            if isinstance(rows, str):
                self.c.violation("%s: %s" % (desc, what), rows, files)
            elif tr is not None:
                self.items.append((desc + ": " + what, files, tr))

    def flush(self, timeout=600):
        items, self.items = self.items, []
        if not items:
            return
        n = 8
        chunks = [items[i::n] for i in range(n) if items[i::n]]
        with ThreadPoolExecutor(n) as ex:
            for ch, (v, r) in zip(chunks, ex.map(lambda ch: tlc.validate("StatsTrace", [x[2] for x in ch], workers=1, timeout=timeout), chunks)):
                self.c.add(traces_validated_against_impl=len(ch), states=r.distinct, transitions=r.generated)
                for (desc, files, tr), x in zip(ch, v):
                    if x:
                        self.c.violation(desc, "call %s: %s" % x, dict(files, **{"trace.json": tr}))


def prepare(c):
    key = build.ensure_core()
    build.elements(key, "vfstat")
    c.log("built")


def run_case(c, case, name, conf):
    for i, cc in enumerate(case.comps):
        cc["rank"] = [i % conf.get("r", 1), (i // conf.get("r", 1)) % conf.get("t", 1)]
    args = ["--partitioner=sst.self"]
    if case.stop:
        args.append("--stop-at=%dps" % (case.stop * case.unit))
    d = c.dir(name)
    return run.sst(args + conf.get("args", []), d, model=case.model(), ranks=conf.get("r", 1), threads=conf.get("t", 1), timeout=120)


PS = {"ps": 1, "ns": 10**3, "us": 10**6, "ms": 10**9}


def endings(case, conf, end, raw, hist):
    """Reported end in units, and per component the last time its partition processed completely."""
    from fractions import Fraction
    e = Fraction(end[0]) * PS[end[1]] / case.unit
    endt = e.numerator if e.denominator == 1 else -1
    if case.stop and endt >= case.stop:
        return endt, lambda k: case.stop - 1
    if conf.get("r", 1) * conf.get("t", 1) == 1:
        # the exit action runs at the end of the next core time step
        return endt, lambda k: endt + (1 if case.unit == 1 else 0)
    last = {}
    for k, cc in enumerate(case.comps):
        p = tuple(cc["rank"])
        ts = [endt] + [t for t, _ in hist["c%d" % k]] + [x[4] // case.unit for x in raw if x[0] == "c%d" % k]
        last[p] = max([last.get(p, 0)] + ts)
    return endt, lambda k: last[tuple(case.comps[k]["rank"])]


def judge(c, b, i, case, conf, r, base=None):
    """Check one finished run; base = (rows, history) of an earlier run it continues."""
    m = json.load(open(os.path.join(r.dir, "model.json"))) if os.path.exists(os.path.join(r.dir, "model.json")) else {}
    desc = "case %s %s" % (i, {k: v for k, v in conf.items()})
    files = {"model.json": m, "out.txt": r.out, "cmd.txt": " ".join(r.cmd)}
    c.add(simulator_runs=1)
    if r.rc != 0 or not r.end:
        c.violation(desc + ": a model with statistics fails", "exit code %s\n%s" % (r.rc, r.out[-1500:]), files)
        return None
    raw, hist = raw_rows(r.dir), history(case, r.dir)
    if base:
        raw = base[0] + raw
        hist = {k: base[1].get(k, []) + hist.get(k, []) for k in set(hist) | set(base[1])}
    for k in range(case.ncomp):
        hist.setdefault("c%d" % k, [])
    endt, ph = endings(case, conf, r.end, raw, hist)
    b.put(desc, files, traces(case, hist, raw, endt, ph))
    known = {("c%d" % k, "s%d" % s["n"], s["sub"]) for k, cc in enumerate(case.comps) for s in cc["stats"]}
    for x in raw:
        if x[:3] not in known:
            c.violation(desc + ": a row of no statistic", str(x), files)
    return raw, hist


def sweep(c, cases, name="j"):
    b = Batch(c)
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda x: run_case(c, x[1][0], "%s%d" % (name, x[0]), x[1][1]), enumerate(cases)))
    for i, ((case, conf), r) in enumerate(zip(cases, rs)):
        judge(c, b, i, case, conf, r)
    b.flush()


def restarts(c, plan, npts, name="k"):
    """plan: (case, conf, period, [(ranks, threads)]): the rows of a run up to a checkpoint followed by those of the
    restarted run are those of one run."""
    b = Batch(c)

    def go(x):
        i, (case, conf, per, lays) = x
        conf = dict(conf, args=["--checkpoint-sim-period=%dps" % (per * case.unit)])
        r = run_case(c, case, "%s%d" % (name, i), conf)
        pts = []
        for f in glob.glob(r.dir + "/**/*.sstcpt", recursive=True):
            n, t = os.path.basename(f)[:-len(".sstcpt")].split("_")[-2:]
            pts.append((int(n), int(t), f))
        rr = random.Random(c.seed + i)
        pts = sorted(rr.sample(sorted(pts), min(npts, len(pts))))
        res = []
        for q, (n, t, f) in enumerate(pts if r.rc == 0 else []):
            for l in lays or [(conf.get("r", 1), conf.get("t", 1))]:
                a = [] if l == (conf.get("r", 1), conf.get("t", 1)) else ["--num-threads=%d" % l[1]]
                o = c.dir("%s%d_%d_%d%d" % ((name, i, q) + l))
                res.append((t, l, run.sst(a, o, sdl=f, ranks=l[0], timeout=120)))
        return i, case, conf, r, res

    with ThreadPoolExecutor(8) as ex:
        for i, case, conf, r, res in ex.map(go, list(enumerate(plan))):
            z = judge(c, b, "%s%d" % (name, i), case, conf, r)
            if not z:
                continue
            for t, l, y in res:
                base = [x for x in z[0] if x[4] < t], {k: [x for x in h if x[0] * case.unit < t] for k, h in z[1].items()}
                for cc, rk in zip(case.comps, [cc["rank"] for cc in case.comps]):
                    if l != (conf.get("r", 1), conf.get("t", 1)):
                        cc["rank"] = [0, 0]     # placement is up to the restart
                judge(c, b, "%s%d restarted at %d as %dx%d" % (name, i, t, l[0], l[1]), case, {"r": l[0], "t": l[1]}, y, base)
                c.add(restarts=1)
    b.flush()


def stat_restarts(c, n, lays=None):
    plan = []
    for k in range(n):
        r = random.Random(c.seed * 7777 + int(c.pid[1:]) * 31 + k)
        conf = CONFS[k % len(CONFS)]
        case = Case(r, ncomp=3 if conf or lays else None, group=k % 3 == 1, stop=k % 5 == 3)
        plan.append((case, conf, r.choice([5, 7, 10]), lays))
    restarts(c, plan, c.q(2, 4))


def rnd(c, k):
    return random.Random(c.seed * 1000003 + int(c.pid[1:]) * 10007 + k)


def p12(c):
    c.tlc_exhaustive("MCStats", workers=8)
    cases = []
    for k in range(c.q(160, 2500)):
        case = Case(rnd(c, k), timing=k % 4 == 0, glob=k % 5 == 0)
        cases.append((case, {}))
    sweep(c, cases)
    for case, _ in cases[:3]:
        c.sample({"stats": case.comps[0]["stats"], "script": case.comps[0]["script"][:12]})


CONFS = [{}, {}, {}, {"t": 2}, {"r": 2}, {"t": 3}]


def p13(c):
    c.tlc_exhaustive("MCStatsWindow", workers=8)
    cases = []
    for k in range(c.q(160, 2500)):
        conf = CONFS[k % len(CONFS)]
        case = Case(rnd(c, k), ncomp=3 if conf else None, group=k % 4 == 1, load=k % 8 == 2, stop=k % 5 == 3)
        cases.append((case, conf))
    sweep(c, cases)
    stat_restarts(c, c.q(24, 300))
    for case, _ in cases[:3]:
        c.sample({"stats": case.comps[0]["stats"], "script": case.comps[0]["script"][:12]})


LIBS = ("vfstat",)
ALL = {"P12": p12, "P13": p13}


def entry(pid):
    def f(c):
        prepare(c)
        ALL[pid](c)
    return check.main(pid, f)


if __name__ == "__main__":
    sys.exit(entry(sys.argv[1]))
