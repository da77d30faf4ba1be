"""P22: component trees (Subcomp.tla)."""
import glob, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, check, run, tlc
from concurrent.futures import ThreadPoolExecutor

CONFS = [dict(), dict(r=2), dict(t=2), dict(), dict(r=2, t=2), dict(t=3), dict(), dict(r=3)]
ELI = {"vfsc.Comp": dict(a=1, b=2, c=5), "vfsc.SubA": dict(a=1, c=3, d=2), "vfsc.SubB": dict(d=4, e=1)}
PORTS = ["h0", "h1", "h2", "p0", "p1"]
SLOTS = ["x", "y", "z"]
SDL = os.path.join(build.VERIF, "sdl", "tree.py")


class Case:
    def __init__(self, r, conf):
        self.r, self.conf = r, conf
        R, T = conf.get("r", 1), conf.get("t", 1)
        self.nd, self.ends, self.links, self.pmods, self.statops = [], [], [], [], []
        self.depth = r.choice([1, 2, 3, 4])
        ncomp = max(R * T, r.choice([1, 1, 2, 3]))
        for k in range(ncomp):
            n = self.node("comp", 0, "vfsc.Comp", name="c%d" % k)
            self.nd[n - 1]["rank"] = [k % R, (k // R) % T]
            self.grow(n, 0)
        for d in self.nd:
            if d["kind"] in ("comp", "user"):
                d["coord"] = r.choice([0, 0, 7, 11, 13])
        self.names()
        self.wire()
        self.stat_cfg()
        for d in list(self.nd):
            if d["kind"] == "comp":
                self.script(d)

    def node(self, kind, parent, typ, **kw):
        d = dict(dict(id=len(self.nd) + 1, kind=kind, parent=parent, type=typ, name="", slot="", num=0, coord=0, stats={}, all=False,
                      level=0, tok=0, kids=[], ops=[], late=[], again=0), **kw)
        self.nd.append(d)
        if parent:
            self.nd[parent - 1]["kids"].append(d["id"])
        return d["id"]

    def grow(self, n, depth):
        r = self.r
        if depth >= self.depth:
            return
        for slot in SLOTS:
            for num in r.choice([[], [0], [0], [0, 1], [0, 2], [1], [0, 1, 3]]) if r.random() < 0.8 / (1 + 0.4 * depth) else []:
                typ = "vfsc.SubB" if slot == "z" and r.random() < 0.8 or r.random() < 0.15 else "vfsc.SubA"
                self.grow(self.node("user", n, typ, slot=slot, num=num), depth + 1)

    def names(self):
        for d in self.nd:
            if d["kind"] == "user":
                p = self.nd[d["parent"] - 1]
                many = sum(1 for k in p["kids"] if self.nd[k - 1]["slot"] == d["slot"]) > 1
                d["name"] = p["name"] + ":" + d["slot"] + ("[%d]" % d["num"] if many else "")

    def wire(self):
        r = self.r
        free = [(d["id"], p) for d in self.nd for p in PORTS if r.random() < (0.7 if d["kind"] == "comp" else 0.25)]
        r.shuffle(free)
        for k in range(0, len(free) - 1, 2):
            la, lb = r.choice([1000, 2000, 5000]), r.choice([1000, 3000, 4000])
            for (n, p), peer, lat in ((free[k], k + 2, la), (free[k + 1], k + 1, lb)):
                e = dict(port=p, n=n, peer=peer, lat=lat, sm="", rm="", poll=p[0] == "p")
                self.ends.append(e)
                for _ in range(r.choice([0, 0, 1, 2]) if self.nd[n - 1]["kind"] == "comp" else 0):
                    tok, snd = r.randrange(10, 99), p[0] == "p" or r.random() < 0.5
                    self.pmods.append(dict(n=n, port=p, params=dict(tok=tok, send=int(snd))))
                    e["sm" if snd else "rm"] += ",%s%d" % ("s" if snd else "r", tok)
            self.links.append(dict(a=list(free[k]), b=list(free[k + 1]), la=la, lb=lb))

    def below(self, n):
        return [n] + [x for k in self.nd[n - 1]["kids"] for x in self.below(k)]

    def stat_cfg(self):
        r = self.r
        self.sc = []
        self.statload = r.choice([None, 1, 3, 6])
        glob = 0 if self.statload is None else self.statload
        level, tok = {}, 1000
        par = lambda: {"rate": "%d events" % tok}
        used = set()
        for d in list(self.nd):
            o = self.nd[d["id"] - 1]
            q = r.random()
            if q < 0.25:
                lv, rec = r.choice([0, 1, 2, 3, 4, 5]), r.random() < 0.3
                self.statops.append(dict(do="level", n=d["id"], level=lv, rec=int(rec)))
                for x in self.below(d["id"]) if rec else [d["id"]]:
                    level[x] = lv
            if r.random() < 0.3 and not any((x, "*") in used for x in self.below(d["id"])):
                tok += 1
                rec = r.random() < 0.3
                self.statops.append(dict(do="all", n=d["id"], params=par(), rec=int(rec)))
                for x in self.below(d["id"]) if rec else [d["id"]]:
                    self.nd[x - 1]["all"], self.nd[x - 1]["tok"] = True, tok
                    used.add((x, "*"))
            for s in ELI[o["type"]]:
                if r.random() < 0.25 and (d["id"], s) not in used:
                    tok += 1
                    self.statops.append(dict(do="on", n=d["id"], s=s, params=par(), rec=0))
                    self.sc.append(dict(shared=False, name="", tok=tok))
                    o["stats"][s] = len(self.sc)
                    used.add((d["id"], s))
            if d["kind"] == "comp" and r.random() < 0.4:
                tok += 1
                self.sc.append(dict(shared=True, name="S%d" % len(self.sc), tok=tok))
                sid = len(self.sc)
                self.statops.append(dict(do="make", n=d["id"], id=str(sid), name=self.sc[-1]["name"], params=par()))
                for x in self.below(d["id"]):
                    s = r.choice(sorted(ELI[self.nd[x - 1]["type"]]))
                    if r.random() < 0.5 and (x, s) not in used:
                        used.add((x, s))
                        self.statops.append(dict(do="use", n=x, s=s, id=str(sid)))
                        self.nd[x - 1]["stats"][s] = sid
        for d in self.nd:
            d["level"] = level.get(d["id"], glob)

    # the script of a node; done: what the whole component has already used (ports by node, subcomponents loaded)
    def script(self, d, depth=0, eff=None):
        r = self.r
        eff = eff or d
        taken = eff.setdefault("taken", set())
        ops = []
        conf = [p for p in PORTS if r.random() < 0.55]
        todo = [("c", p) for p in conf] + [("s",) for _ in range(r.choice([0, 1, 3, 6]))] + [("q",) for _ in range(r.choice([0, 1, 3]))] + \
            [("i",) for _ in range(r.choice([0, 1, 2]))] + [("b",) for _ in range(r.choice([0, 0, 1]))] + [("f",) for _ in range(r.choice([0, 0, 1]))]
        if eff is d:
            for slot in SLOTS:
                C = [self.nd[k - 1] for k in d["kids"] if self.nd[k - 1]["slot"] == slot]
                if not C and r.random() < 0.7:
                    continue
                api = 2 if slot == "z" else 1
                ways = ["info"] if api == 2 or len(C) > 1 else ["info", "one"]
                if api == 1:
                    ways += ["all", "sparse"]
                todo.append(("u", slot, r.choice(ways), api, C))
            for _ in range(r.choice([0, 0, 1, 2]) if depth < 4 and len(self.nd) < 60 else 0):
                todo.append(("n",))
        for _ in range(1 if depth < 4 and len(self.nd) < 60 and r.random() < 0.2 else 0):
            todo.append(("e",))
        r.shuffle(todo)
        fl = lambda: r.choice([0, 1, 1, 1, 3, 5, 6, 7, 7, 7, 2, 4])
        for t in todo:
            if t[0] == "c":
                if t[1] in taken:
                    continue
                taken.add(t[1])
                ops.append("c:%s%s" % (t[1], r.choice(["", "", ":2ns", ":500ps"])))
            elif t[0] == "s":
                ops.append("s:%s:%s" % (r.choice("abcde"), r.choice(["", "", "u", "v"])))
            elif t[0] == "q":
                ops.append("q:" + r.choice(PORTS))
            elif t[0] == "i":
                ops.append("i:" + r.choice(SLOTS + ["w"]))
            elif t[0] == "b":
                ops.append("b:%s:%d" % (r.choice(["3ns", "700ps"]), r.randrange(2)))
            elif t[0] == "f":
                ops.append("f")
            elif t[0] == "u":
                _, slot, way, api, C = t
                nums = [c["num"] for c in C]
                if way == "info":
                    for num in sorted(set(nums + [r.choice([0, 1, 2, 5])]), key=lambda x: r.random()):
                        if r.random() < 0.85:
                            # with the wrong interface nothing is loaded
                            a = 3 - api if r.random() < 0.1 else api
                            ops.append("u:%s:%d:%d:%d:info" % (slot, num, fl(), a))
                            for c in C:
                                if c["num"] == num and (c["type"] == "vfsc.SubB") == (a == 2):
                                    self.script(c, depth + 1)
                else:
                    ops.append("u:%s:0:%d:%d:%s" % (slot, fl(), api, way))
                    for c in C:
                        if c["type"] == "vfsc.SubA":
                            self.script(c, depth + 1)
            elif t[0] == "n":
                typ = r.choice(["vfsc.SubA", "vfsc.SubB"])
                num = sum(1 for k in d["kids"] if self.nd[k - 1]["kind"] == "anon")
                num += r.choice([0, 0, 1]) if num == 0 else 0
                num = max([self.nd[k - 1]["num"] + 1 for k in d["kids"] if self.nd[k - 1]["kind"] == "anon"] + [num])
                n = self.node("anon", d["id"], typ, name=d["name"], slot="w", num=num, coord=d["coord"])
                ops.append("n:w:%d:%d:%d:%s:k%d" % (num, fl(), 2 if typ[-1] == "B" else 1, typ, n))
                self.script(self.nd[n - 1], depth + 1)
            elif t[0] == "e":
                n = self.node("ext", d["id"], "", name=d["name"])
                ops.append("e:k%d" % n)
                self.script(self.nd[n - 1], depth + 1, eff)
        d["ops"] = ops
        d["again"] = r.choice([0, 6, 9, 12])
        d["late"] = [r.choice(["q:" + r.choice(PORTS), "i:" + r.choice(SLOTS + ["w"]), "s:%s:%s" % (r.choice("abcde"), r.choice(["", "", "u", "v"])),
                               "s:%s:%s" % (r.choice("abcde"), "")]) for _ in range(r.choice([0, 1, 3]))]

    def params(self, d, pre=""):
        p = {pre + "id": d["id"], pre + "ops": ";".join(d["ops"]), pre + "late": ";".join(d["late"]), pre + "again": d["again"]}
        for k in d["kids"]:
            c = self.nd[k - 1]
            if c["kind"] in ("anon", "ext"):
                p.update(self.params(c, pre + "k%d." % k))
        return p

    def model(self):
        m = dict(nodes=[], stats=self.statops, links=self.links, pmods=self.pmods)
        if self.statload is not None:
            m["statload"] = self.statload
        for d in self.nd:
            if d["kind"] in ("comp", "user"):
                q = dict(id=d["id"], kind=d["kind"], name=d["name"], type=d["type"], parent=d["parent"], slot=d["slot"], num=d["num"], params=self.params(d))
                if d["coord"]:
                    q["coord"] = d["coord"]
                if d["kind"] == "comp":
                    q["rank"] = d["rank"]
                m["nodes"].append(q)
        return m

    def head(self):
        nd = [dict(kind=d["kind"], parent=d["parent"], type=d["type"], name=d["name"], slot=d["slot"], num=d["num"], coord=d["coord"],
                   stats=[dict(k=k, v=v) for k, v in sorted(d["stats"].items())], all=d["all"], level=d["level"], tok=d["tok"]) for d in self.nd]
        return dict(nd=nd, ends=self.ends or [dict(port="none", n=0, peer=1, lat=0, sm="", rm="", poll=False)], sc=self.sc or [dict(shared=False, name="", tok=0)],
                    lev={t: [dict(k=k, v=v) for k, v in sorted(e.items())] for t, e in ELI.items()})


ORDER = {"hi": 1, "dtb": 2}
CONSTR = {"new", "load", "anon", "extn", "ret", "many", "conf", "tb", "self"}
EMPTY = dict(x="", n=1, a="", b="", s="", i=0, j=0, k=0, t=0, l=[])


def records(logs, lo=None, hi=None):
    """(phase, time, kind, component, position) gives the order; construction is per component in the order of its log."""
    recs = []
    for who, parts in logs.items():
        i, built, t = 0, False, 0
        for part in parts:
            for x in part:
                i += 1
                if x["x"] in ("hi", "dtb", "snd", "ssnd", "still", "got", "sgot"):
                    built = True
                if x["x"] == "still":
                    t = 7000
                t = max(t, x["t"])
                ph = 0 if not built else ORDER.get(x["x"], 3)
                if ph == 3 and hi is not None and t >= hi:
                    continue
                recs.append(((ph, t if ph == 3 else 0, who, i), dict(EMPTY, **x)))
    recs.sort(key=lambda x: x[0])
    out, built = [], False
    for k, x in recs:
        if k[0] > 0 and not built:
            out.append(dict(EMPTY, x="built"))
            built = True
        out.append(x)
    return out


def p22(c):
    c.tlc_exhaustive("MCSubcomp", workers=8)
    c.tlc_exhaustive("MCSubcompStat", workers=8)
    plan = []
    for k in range(c.q(120, 1600)):
        r = random.Random(c.seed * 7000003 + k)
        plan.append((Case(r, CONFS[k % len(CONFS)]), k % 3 == 1, r))

    def go(x):
        i, (case, ck, r) = x
        conf = case.conf
        args = ["--partitioner=sst.self"]
        if ck:
            args.append("--checkpoint-sim-period=%dps" % r.choice([2000, 5500]))
        m = case.model()
        y = run.sst(args, c.dir("s%d" % i), model=m, sdl=SDL, ranks=conf.get("r", 1), threads=conf.get("t", 1), timeout=90)
        rs = []
        if ck and y.rc == 0:
            fs = sorted(glob.glob(y.dir + "/**/*.sstcpt", recursive=True))
            r.shuffle(fs)
            for f in fs[:2]:
                T = int(os.path.basename(f)[:-len(".sstcpt")].split("_")[-1])
                lay = r.choice([(conf.get("r", 1), conf.get("t", 1)), (1, 1), (1, 2), (2, 1)])
                a = [] if lay == (conf.get("r", 1), conf.get("t", 1)) else ["--num-threads=%d" % lay[1]]
                if lay[0] * lay[1] <= sum(1 for d in case.nd if d["kind"] == "comp"):
                    rs.append((lay, T, run.sst(a, c.dir("s%d_r%d" % (i, len(rs))), sdl=f, ranks=lay[0], timeout=90)))
        return i, case, m, y, rs

    trs = []
    with ThreadPoolExecutor(6) as ex:
        for i, case, m, y, rs in ex.map(go, list(enumerate(plan))):
            desc = "case %d %s" % (i, case.conf)
            files = {"model.json": m, "out.txt": y.out, "cmd.txt": " ".join(y.cmd)}
            c.add(simulator_runs=1 + len(rs))
            for what, T, z in [(desc, None, y)] + [(desc + " restarted at %d as %dx%d" % ((T,) + lay), T, z) for lay, T, z in rs]:
                f = dict(files, **{"this_out.txt": z.out, "this_cmd.txt": " ".join(z.cmd)})
                if z.rc != 0 or not z.end:
                    c.violation(what + ": fails", "exit code %s\n%s" % (z.rc, z.out[-1500:]), f)
                    continue
                l = records(run.logs(y.dir), hi=T) if T is not None else []
                w = records(run.logs(z.dir))
                if T is not None:
                    # finding late-registration: a statistic of before the checkpoint that is asked for again after the restart
                    before = {x["s"]: x["j"] for x in l if x["x"] == "stat" and x["j"]}
                    again = [x for x in w if x["x"] == "stat" and x["s"] in before]
                    if any(x["j"] != before[x["s"]] for x in again):
                        c.violation(what + ": asking again for a statistic makes a second one", str(again[:2]), f, known_key="late-registration")
                    w = [x for x in w if x not in again]
                l += [x for x in w if T is None or x["x"] != "built"] + [dict(EMPTY, x="done")]
                trs.append((what, f, dict(case.head(), l=l)))
                c.add(nodes=len(case.nd), link_requests=sum(1 for x in l if x["x"] == "conf"), statistics=sum(1 for x in l if x["x"] == "stat"),
                      deliveries=sum(1 for x in l if x["x"] == "got"))
    n = 8
    chunks = [trs[i::n] for i in range(n) if trs[i::n]]
    with ThreadPoolExecutor(n) as ex:
        for ch, (v, r) in zip(chunks, ex.map(lambda ch: tlc.validate("SubcompTrace", [x[2] for x in ch], workers=1, timeout=600), chunks)):
            c.add(traces_validated_against_impl=len(ch), states=r.distinct, transitions=r.generated)
            for (desc, files, tr), x in zip(ch, v):
                if x:
                    c.violation(desc, "record %s: %s" % x, dict(files, **{"trace.json": tr}))
    for case, _, _ in plan[:3]:
        c.sample({"layout": case.conf, "nodes": [(d["kind"], d["parent"], d["type"], d["ops"]) for d in case.nd]})


def entry(pid):
    def f(c):
        key = build.ensure_core()
        build.elements(key, "vfsc")
        c.log("built")
        p22(c)
    return check.main(pid, f)


if __name__ == "__main__":
    sys.exit(entry(sys.argv[1]))
