"""Scenarios for the discrete event kernel: random models of vf.Node components,
their translation to the constants of Kernel.tla, and to traces from recorded logs."""
import json, random, re
import run as R

UNITS = {"ps": 1, "ns": 10**3, "us": 10**6, "ms": 10**9, "s": 10**12, "fs": 0.001}


class Scen:
    """nodes: list of dict(ports=[dict(n,k,own,tb,xs,xr,slat)], clocks=[(per,ord,on)], prim, gen, script)
    links: list of (a, pa, b, pb, la, lb) with port indexes."""

    def __init__(self, nodes, links, unit=1, stop=0, **kw):
        self.nodes, self.links, self.unit, self.stop = nodes, links, unit, stop
        self.kw = kw

    def model(self):
        comps, links = [], []
        for i, n in enumerate(self.nodes):
            ports = ",".join("%s:%s:%d:%d:%d:%d:%d" % (p["n"], p["k"], p.get("own", -1), p.get("tb", 1), p.get("xs", 0),
                                                       p.get("xr", 0), p.get("slat", 0)) for p in n["ports"])
            prm = {"id": i, "unit": self.unit, "ports": ports,
                   "clocks": ",".join("%d:%s:%d" % (a, "o" if b else "u", c) for a, b, c in n["clocks"]),
                   "primary": 1 if n["prim"] else 0}
            if n.get("gen"):
                prm["gen"] = ",".join("%s=%d" % kv for kv in n["gen"].items())
            if n.get("script"):
                prm["script"] = "|".join("%s:%s" % kv for kv in n["script"].items())
            c = {"name": "n%d" % i, "type": "vf.Node", "params": prm}
            subs = sorted({p["own"] for p in n["ports"] if p.get("own", -1) >= 0})
            c["subs"] = [{"slot": "sub", "type": "vf.Sub", "num": s, "id": "s%d" % s} for s in subs]
            if "rank" in n:
                c["rank"] = n["rank"]
            if "weight" in n:
                c["weight"] = n["weight"]
            comps.append(c)
        for k, (a, pa, b, pb, la, lb, *rest) in enumerate(self.links):
            def end(i, p):
                P = self.nodes[i]["ports"][p]
                o = P.get("own", -1)
                return ["n%d" % i + ("/s%d" % o if o >= 0 and not P.get("share") else ""), P["n"]]
            l = {"a": end(a, pa), "b": end(b, pb), "la": la, "lb": lb}
            if rest and rest[0]:
                l["nocut"] = True
            links.append(l)
        m = {"unit": self.unit, "comps": comps, "links": links}
        m.update(self.kw.get("model", {}))
        return m

    def direct_ok(self):
        """Direct inter-thread links are experimental: queues read by polling and untimed data are not protected
        against the other thread, so models for them use neither."""
        return not any(p["k"] == "p" for n in self.nodes for p in n["ports"]) and \
            not any(n.get("gen", {}).get("uon") for n in self.nodes)

    def args(self):
        a = []
        if self.stop:
            a.append("--stop-at=%dps" % (self.stop * self.unit))
        return a

    def constants(self):
        peer = {}
        for a, pa, b, pb, la, lb, *_ in self.links:
            peer[(a, pa)] = (b, pb, la)
            peer[(b, pb)] = (a, pa, lb)
        ports, clocks = [], []
        for i, n in enumerate(self.nodes):
            row = []
            for j, p in enumerate(n["ports"]):
                if p["k"] in "sq":
                    row.append({"k": p["k"], "pc": i + 1, "pp": j + 1, "lat": p.get("slat", 0) + p.get("xs", 0) + p.get("xr", 0)})
                else:
                    b, pb, lat = peer[(i, j)]
                    row.append({"k": p["k"], "pc": b + 1, "pp": pb + 1,
                                "lat": lat + p.get("xs", 0) + self.nodes[b]["ports"][pb].get("xr", 0)})
            ports.append(row)
            clocks.append([{"per": a, "ord": 1 if b else 0, "on": c} for a, b, c in n["clocks"]])
        return {"n": len(self.nodes), "ports": ports, "clocks": clocks,
                "prim": [1 if n["prim"] else 0 for n in self.nodes], "stop": self.stop}


def endtime(r):
    """(end of simulation in ps or None)"""
    m = re.search(r"Simulation is complete, simulated time: ([0-9.]+) ([a-z]?s)", r.out)
    return m.groups() if m else None


def histories(scen, logs):
    """Per component the list of raw records with times in units; -> {index: [rec]}.
    logs: {name: [list of records per process]} with one list each."""
    u = scen.unit
    res = {}
    for i in range(len(scen.nodes)):
        ll = logs.get("n%d" % i, [[]])
        recs = []
        for part in ll:
            recs += part
        out = []
        for r in recs:
            r = dict(r)
            if "t" in r:
                if r["t"] % u:
                    r = {"x": "bad", "t": r["t"] // u, "c": i, "why": "time is not a multiple of the model's time unit"}
                    out.append(r)
                    continue
                r["t"] //= u
            if "o" in r:
                o2 = []
                for o in r["o"]:
                    if o[0] == "s":
                        o = [o[0], o[1], o[2] // u, o[3]]
                    elif o[0] == "t":
                        o = [o[0], o[1] // u if o[1] % u == 0 else -1, o[2]]
                    o2.append(o)
                r["o"] = o2
            if "end" in r:
                r["end"] = r["end"] // u if r["end"] % u == 0 else -1
            out.append(r)
        res[i] = out
    return res


ORDER = {"se": 0, "ev": 1, "ck": 1, "bad": 1}


def trace(scen, hist, upto=None):
    """Merged trace for KernelTrace from per component histories."""
    rows = []
    ends = set()
    for c, recs in hist.items():
        for k, r in enumerate(recs):
            if r["x"] == "fi":
                ends.add(r["end"])
            if r["x"] not in ORDER:
                continue
            rows.append((r.get("t", 0), 0 if r["x"] == "se" else 1, c, k, r))
    end = max(ends) if ends else None
    rows.sort(key=lambda z: z[:4])
    lines = []
    for t, _, c, _, r in rows:
        if end is not None and t > end and not scen.stop:
            continue
        z = {"x": r["x"], "c": c + 1, "t": t, "o": [o for o in r.get("o", [])]}
        if r["x"] == "ev":
            z["p"], z["v"] = r["p"], r["v"]
        elif r["x"] == "ck":
            z["h"], z["cy"] = r["h"], r["cy"]
        elif r["x"] == "bad":
            z["why"] = r["why"]
        lines.append(z)
        if r["x"] == "ck" and r["w"]:
            lines.append({"x": "w", "c": c + 1, "h": r["h"]})
    if len(ends) > 1:
        lines.append({"x": "bad", "why": "components saw different end times"})
    elif not ends:
        lines.append({"x": "bad", "why": "no component finished"})
    else:
        lines.append({"x": "en", "t": end})
    return {"g": scen.constants(), "l": lines}


def rnd_scen(rng, n=None, clocks=True, polls=True, selfs=True, subs=True, addlat=True, untimed=True, maxsend=60,
             end=300, unit=None, stop=None, allprim=True, lat=None, cops=25, dense=False, tb=True,
             det=False, pers=None, nclk=None, cn=1, ordp=0.6, inj=None, p_self=None, cstop=None, disc=False, uniq=None, **gen):
    """A random model of vf.Node components."""
    n = n or rng.randint(2, 7)
    lat = lat or (lambda: rng.choice([1, 2, 3, 4, 5, 5, 7, 10, 10, 13, 20, 40]))
    ports = [[] for _ in range(n)]
    links = []

    def newport(i):
        k = "p" if polls and rng.random() < 0.25 else "h"
        p = {"n": "p%d" % len(ports[i]), "k": k}
        if addlat and rng.random() < 0.2:
            p["xs"] = rng.choice([1, 3, 6, 11])
        if addlat and rng.random() < 0.2:
            p["xr"] = rng.choice([1, 2, 5, 9])
        if tb and rng.random() < 0.25:
            p["tb"] = rng.choice([2, 3])
        ports[i].append(p)
        return len(ports[i]) - 1

    pairs = [(i, i + 1) for i in range(n - 1)]
    if n > 2 and not disc:
        pairs.append((0, n - 1))
    for _ in range(rng.randint(1, 3) + (n if dense else 0)):
        a, b = rng.randrange(n), rng.randrange(n)
        if a != b:
            pairs.append((a, b))
        elif selfs:
            pairs.append((a, a))
    sym = rng.random() < 0.4
    base = lat()
    for a, b in pairs:
        if rng.random() < 0.5:
            a, b = b, a
        pa = newport(a)
        pb = newport(b)
        la, lb = (base, base) if sym else (lat(), lat())
        links.append((a, pa, b, pb, la, lb))
    nodes = []
    seed = rng.randrange(1, 10**6)
    for i in range(n):
        if selfs:
            for k in range(rng.choice(p_self or [0, 0, 1, 2])):
                ports[i].append({"n": "self%d" % k, "k": rng.choice("sssq"), "slat": rng.choice([0, 1, 4])})
        perm = list(range(len(ports[i])))
        rng.shuffle(perm)                       # configure order differs from naming and link creation order
        inv = {o: k for k, o in enumerate(perm)}
        links = [(a, inv[pa] if a == i else pa, b, inv[pb] if b == i else pb, la, lb) for a, pa, b, pb, la, lb in links]
        ports[i] = [ports[i][o] for o in perm]
        if subs and rng.random() < 0.4:         # ports owned by subcomponents, in blocks
            k = 0
            lo = rng.randrange(len(ports[i]) + 1)
            for j in range(lo, len(ports[i])):
                if ports[i][j]["k"] in "hp":
                    ports[i][j]["own"] = k
                    if rng.random() < 0.4:
                        k += 1
            used = sorted({p["own"] for p in ports[i] if "own" in p})
            for p in ports[i]:
                if "own" in p:
                    p["own"] = used.index(p["own"])
        ck = []
        if clocks:
            pp = [rng.choice(pers or [5, 8, 10, 10, 12, 15, 20]) for _ in range(2)]
            nn = rng.randint(*(nclk or (1, 5)))
            allord = True
            if det:   # only clocks whose relative order is specified: one plain one, or ordered ones of one period
                pp = pp[:1]
                allord = rng.random() < 0.8
                if not allord:
                    nn = 1
            for _ in range(nn):
                ck.append((rng.choice(pp), allord if det else rng.random() < ordp, 1 if rng.random() < 0.8 else 0))
        prim = allprim or rng.random() < 0.5 or i == 0
        if prim:
            if not ck:
                ck = [(rng.choice([6, 10]), 0, 1)]
            ck[0] = (ck[0][0], ck[0][1], 1)
        nodes.append({"ports": ports[i], "clocks": ck, "prim": prim})
    for i, nd in enumerate(nodes):
        g = dict(on=1, seed=seed, inj=inj if inj is not None else rng.choice([5, 20, 50]), max=maxsend, end=rng.randint(end // 2, end),
                 cops=cops if clocks else 0, cstop=rng.choice([0, 5, 15]) if cstop is None else cstop, cn=cn, dly=rng.choice([7, 25]))
        if untimed:
            g.update(uon=1, uph=rng.randint(0, 4))
        g.update(gen)
        nd["gen"] = g
    if uniq:        # no two handlers of the model share a clock
        u = list(uniq)
        rng.shuffle(u)
        for nd in nodes:
            k = min(len(nd["clocks"]), len(u))
            nd["clocks"] = [(u.pop(), 0, c[2]) for c in nd["clocks"][:k]]
            nd["prim"] = nd["prim"] and k > 0
            nd["gen"]["xclk"] = 1
        if not any(nd["prim"] for nd in nodes):
            nodes[0]["prim"] = True
    if unit is None:
        unit = rng.choice([1, 1, 1, 1000, 7000003])
    if stop is None:
        stop = rng.choice([0, 0, rng.randint(end // 3, end)])
    return Scen(nodes, links, unit, stop)
