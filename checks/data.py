"""P26 P20 P23 P24 P17 P18 P19: parts of the core with a functional specification.
Generated sequences of calls run in the real code; TLC replays the recorded calls and results."""
import os, random, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, check, drive, tlc


def judge(c, module, seqs, res, what, batch=None):
    """seqs/res: sequences sent and returned (with results). TLC decides each."""
    done = [r for r in res if r is not None]
    batch = batch or max(1, len(done))
    lines = sum(len(r["l"]) for r in done)
    for i in range(0, len(done), batch):
        v, r = tlc.validate(module, done[i:i + batch], workers=8)
        c.add(states=r.distinct, transitions=r.generated)
        for x, d in zip(v, done[i:i + batch]):
            if x is not None:
                at = d["l"][x[0] - 1]
                c.violation("%s: call %d of a sequence" % (what, x[0]), "%s: %s" % (x[1], str(at)[:400]), {"sequence.json": d})
    c.add(traces_validated_against_impl=len(done), calls=lines)
    c.log("%s: %d sequences, %d calls" % (module, len(done), lines))
    for d in done[:2]:
        c.sample({"calls": d["l"][:6]})


def p26(c):
    c.tlc_exhaustive("MCSortedMap", workers=8)
    rng = c.rng
    seqs = []
    for q in range(c.q(300, 4000)):
        kind = ["val", "ptr", "set"][q % 3]
        span = rng.choice([3, 6, 12, 40])
        n = rng.choice([5, 20, 60, 150])
        l, nv = [], 0
        up = 0
        for _ in range(n):
            nv += 1
            k = rng.randint(-span, span)
            v = k if kind == "set" else nv
            x = rng.random()
            if x < 0.4:
                if rng.random() < 0.3:
                    up += rng.randint(0, 1)
                    k = up
                    v = k if kind == "set" else nv
                l.append({"op": "ins", "k": k, "v": v})
            elif x < 0.55:
                l.append({"op": "get", "k": k, "c": rng.randint(0, 1)})
            elif x < 0.65:
                l.append({"op": "has", "k": k})
            elif x < 0.72:
                l.append({"op": "set", "k": k, "v": v})
            elif x < 0.77:
                l.append({"op": "size"})
            elif x < 0.87:
                l.append({"op": "iter", "c": rng.randint(0, 1)})
            elif x < 0.90:
                l.append({"op": "sort"})
            elif x < 0.93:
                l.append({"op": "copy"})
            elif x < 0.94:
                l.append({"op": "clear"})
                up = 0
            elif x < 0.96 or kind != "ptr":
                ks = rng.sample(range(-span, span + 1), rng.randint(0, min(2 * span, 20)))
                so = rng.randint(0, 1)
                if so:
                    ks.sort()
                l.append({"op": "load", "items": [[a, a if kind == "set" else nv * 100 + i] for i, a in enumerate(ks)], "sorted": so})
            else:
                al = list(range(-span, span + 1))
                l.append({"op": "filter", "del": rng.sample(al, rng.randint(0, len(al) // 2)), "chg": rng.sample(al, rng.randint(0, len(al) // 2))})
        for k in range(-span, span + 1):
            l.append({"op": "has", "k": k})
        l += [{"op": "iter", "c": 0}, {"op": "size"}]
        seqs.append({"kind": kind, "l": l})
    judge(c, "SortedMapTrace", seqs, drive.run_all(c, "vfsvm", seqs), "sorted container")


def p23(c):
    c.tlc_exhaustive("MCStreams", workers=8)
    rng = c.rng
    seqs = []

    def cfg(q):
        d, al = [], ""
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            k = rng.choice(["gauss", "gauss", "expon", "poisson", "uniform", "constant", "discrete"])
            al += "ABC"[len(d)] * 2
            d.append({"gauss": ["gauss", rng.choice([0.0, 5.5, -2.0]), rng.choice([1.0, 3.25])],
                      "expon": ["expon", rng.choice([0.5, 2.0])], "poisson": ["poisson", rng.choice([0.7, 4.0, 11.0])],
                      "uniform": ["uniform", rng.choice([1, 2, 7, 100])], "constant": ["constant", 3.5],
                      "discrete": ["discrete", [0.2, 0.3, 0.1, 0.4][:rng.randint(2, 4)]]}[k])
        sc = "".join(rng.choice("u36ij" + al * 2) for _ in range(rng.randint(1, 9)))
        return {"rng": ["mersenne", "xorshift", "marsaglia"][q % 3], "seed": rng.randint(1, 2**32 - 1) if rng.random() < 0.7 else rng.randint(1, 5),
                "d": d, "script": sc}

    def seq(cs, off=0):
        l, live, nu = [], {}, off
        for _ in range(rng.choice([20, 60])):
            x = rng.random()
            if x < 0.15 or not live:
                k = rng.randrange(len(cs))
                live[nu] = k
                l.append({"op": "new", "u": nu, "c": cs[k], "cid": repr(cs[k])})
                nu += 1
            elif x < 0.75:
                l.append({"op": "draw", "u": rng.choice(list(live)), "n": rng.choice([1, 1, 2, 3, 10, 100, 700] if rng.random() < 0.3 else [1, 2, 3, 7])})
            elif x < 0.85:
                u = rng.choice(list(live))
                live[nu] = live[u]
                l.append({"op": "copy", "u": u, "to": nu})
                nu += 1
            elif x < 0.95:
                u = rng.choice(list(live))
                if not cs[live[u]]["d"]:
                    # the same script may be started again with the seed of another configuration of the same kind
                    alt = [k for k in range(len(cs)) if not cs[k]["d"] and cs[k]["rng"] == cs[live[u]]["rng"] and cs[k]["script"] == cs[live[u]]["script"]]
                    k = rng.choice(alt)
                    live[u] = k
                    l.append({"op": "seed", "u": u, "s": cs[k]["seed"], "cid": repr(cs[k])})
            else:
                u = rng.choice(list(live))
                del live[u]
                l.append({"op": "del", "u": u})
        for u in live:
            l.append({"op": "draw", "u": u, "n": 20})
        return l

    for q in range(c.q(120, 1500)):
        cs = [cfg(q) for _ in range(rng.randint(1, 2))]
        if not cs[0]["d"]:
            cs.append(dict(cs[0], seed=rng.randint(1, 2**32 - 1)))
        if q % 3 == 0:
            seqs.append({"l": seq(cs)})
        else:
            seqs.append({"par": [{"l": seq(cs, 1000 * t)} for t in range(4)]})
    # the same calls in one process and in another, and over several threads
    res = drive.run_all(c, "vfrng", seqs)
    res2 = drive.run_all(c, "vfrng", seqs[:c.q(30, 300)], name="e")
    out = []
    for i, r in enumerate(res):
        if r is None:
            continue
        l = list(r["l"]) if "l" in r else [o for p in r["par"] for o in p["l"]]
        if i < len(res2) and res2[i] is not None:
            e = res2[i]
            l2 = list(e["l"]) if "l" in e else [o for p in e["par"] for o in p["l"]]
            for o in l2:
                o["u"] += 100000
                if "to" in o:
                    o["to"] += 100000
            l += l2
        out.append({"l": l})
    judge(c, "StreamsTrace", seqs, out, "random number stream")


def p20(c):
    c.tlc_exhaustive("MCEventQueue", workers=8)
    rng = c.rng
    kinds = ["sst.timevortex.priority_queue", "sst.timevortex.map.binned", "sst.timevortex.priority_queue.ts", "sst.timevortex.map.binned.ts"]
    prios = [20, 25, 30, 40, 50, 50, 50, 85, 98, 99]
    seqs = []
    for q in range(c.q(240, 3000)):
        ty = kinds[q % 4]
        nt = rng.choice([2, 4, 10])
        times = sorted(rng.sample(range(0, 3 * nt), nt)) if rng.random() < 0.5 else \
            sorted(rng.choice([rng.randint(0, 9), rng.randint(0, 2**32 + 5), rng.randint(2**31, 2**33), rng.randint(0, 2**64 - 2)]) for _ in range(nt))
        times = sorted(set(times) | ({0} if rng.random() < 0.5 else set()))
        tags = sorted(set(rng.choice([0, 1, 2, 2**31, 2**32 - 1, rng.randint(0, 2**32 - 1)]) for _ in range(rng.choice([1, 2, 4]))))
        ref, l, n, now = [], [], 0, 0       # ref: (t, p, g, number) held
        binned = "binned" in ty

        def item():
            nonlocal n
            n += 1
            lo = [i for i in range(len(times)) if not binned or times[i] >= now]
            if not lo:
                return None
            i = rng.choice(lo[:3]) if rng.random() < 0.5 else rng.choice(lo)
            return {"id": n, "t": i, "p": rng.choice(prios), "g": rng.randrange(len(tags))}
        grow = True
        for _ in range(rng.choice([15, 40, 120])):
            x = rng.random()
            if rng.random() < 0.06:
                grow = not grow
            if x < (0.55 if grow else 0.25):
                o = item()
                if o:
                    l.append(dict(o, op="ins"))
                    ref.append((o["t"], o["p"], o["g"], o["id"]))
            elif x < 0.8:
                l.append({"op": "pop"})
                if ref:
                    m = min(ref)
                    ref.remove(m)
                    now = max(now, times[m[0]])
            elif x < 0.88 and ref:
                l.append({"op": "front"})
            elif x < 0.93:
                l.append({"op": "size"})
            elif x < 0.97:
                l.append({"op": "contents"})
            elif ty.endswith(".ts"):
                # threads insert items for later times while the owner removes those of earlier times
                pend = sorted(ref)
                k = rng.randint(0, min(len(pend), 30))
                last = pend[k - 1][0] if k else -1
                lo = [i for i in range(len(times)) if i > last and (not binned or times[i] >= now)]
                if not lo or len(tags) < 2:
                    continue
                ins = []
                for th in range(min(len(tags), 3)):
                    ins.append([])
                    for _ in range(rng.randint(1, 25)):
                        n += 1
                        ins[-1].append({"id": n, "t": rng.choice(lo), "p": rng.choice([40, 50]), "g": th})
                l.append({"op": "par", "ins": ins, "pops": k})
                for m in pend[:k]:
                    ref.remove(m)
                    now = max(now, times[m[0]])
                ref += [(o["t"], o["p"], o["g"], o["id"]) for th in ins for o in th]
        l += [{"op": "size"}, {"op": "contents"}] + [{"op": "pop"} for _ in range(len(ref) + 1)]
        l += [{"op": "size"}, {"op": "pop"}, {"op": "contents"}]
        seqs.append({"type": ty, "times": times, "tags": tags, "l": l})
    judge(c, "EventQueueTrace", seqs, drive.run_all(c, "vftv", seqs, timeout=60), "event queue")


def p24(c):
    c.tlc_exhaustive("MCPool", workers=8)
    rng = c.rng

    def seq(align, nt):
        l, live, n = [], [], 0
        # few sizes per sequence, so that lists fill up and move between threads
        cls = rng.sample(range(14), rng.choice([1, 1, 2, 4]))
        if rng.random() < 0.6:
            cls = [rng.choice([6, 7, 8, 9, 13]), rng.choice([7, 8])] + cls[:1]
        big = rng.choice([20, 60, 150])
        mode = 0
        for _ in range(rng.choice([60, 200, 500])):
            if rng.random() < 0.03:
                mode = rng.randint(0, 3)
            x = rng.random()
            t = rng.randrange(nt) if mode < 2 else (0 if len(live) % 2 else nt - 1)
            grow = [0.5, 0.5, 0.75, 0.25][mode]
            if x < grow and len(live) < big:
                n += 1
                cl = rng.choice(cls)
                if cl in (8, 9) and sum(1 for y in live if y[1] in (8, 9)) > 12:
                    cl = 0
                live.append((n, cl))
                l.append({"op": "new", "t": t if mode != 2 else 0, "id": n, "c": cl})
            elif x < 0.93 and live:
                i, _ = live.pop(rng.choice([0, -1, rng.randrange(len(live))]))
                l.append({"op": "del", "t": t if mode != 2 else nt - 1, "id": i})
            elif x < 0.96 and live:
                l.append({"op": "chk", "t": rng.randrange(nt), "id": rng.choice(live)[0]})
            elif x < 0.98:
                l.append({"op": "usage"})
            else:
                l.append({"op": "undel"})
        l += [{"op": "usage"}, {"op": "undel"}]
        l += [{"op": "chk", "t": rng.randrange(nt), "id": i} for i, _ in live]
        l += [{"op": "del", "t": rng.randrange(nt), "id": i} for i, _ in live]
        l += [{"op": "usage"}, {"op": "undel"}]
        return dict(align=align, threads=nt, ids=n, l=l)

    out = []
    for align in (0, 1):
        for nt in (1, 2, 4):
            seqs = [seq(align, nt) for _ in range(c.q(16, 150))]
            res = drive.run_all(c, "vfpool", seqs, name="p%d%d" % (align, nt), jobs=2 if nt > 1 else 4, threads=nt,
                                args=["--cache-align-mempools"] if align else [])
            for r in res:
                if r is None:
                    continue
                l = sorted(r["l"], key=lambda o: o["k"])
                pts = {v: i for i, v in enumerate(sorted({int(x) for o in l if o["op"] == "new" for x in o["r"][:2]}))}
                for o in l:
                    if o["op"] == "new":
                        o["r"] = [pts[int(o["r"][0])], pts[int(o["r"][1])], o["r"][2]]
                out.append(dict(threads=nt, align=align, l=l))
    judge(c, "PoolTrace", out, out, "memory pool")


def p21(c):
    for m in ("MCBoundedQueue", "MCBarrier", "MCUnboundedQueue"):
        c.tlc_exhaustive(m, workers=8)
    if c.thorough:
        c.tlc_exhaustive("MCBoundedQueue", "MCBoundedQueue2", workers=8)
    rng = c.rng
    progs = []

    def prog(kind, threads, **kw):
        small = sum(len(t) for t in threads) <= 6
        progs.append(dict(dict(kind=kind, threads=threads, cap=1000000, n=len(threads), late=0, resize=0, gens=0,
                               keep=c.q(12, 40), bound=2 if not small else c.q(3, 4), dfs=c.q(3000, 60000), random=c.q(500, 10000)), **kw))

    op = lambda o, a=0: {"op": o, "a": a}
    for cap in (1, 2, 3):            # the smallest programs, all schedules
        for th in ([[op("tins", 1), op("tins", 2)], [op("trem"), op("trem")]],
                   [[op("tins", 1)], [op("tins", 2)], [op("trem")]],
                   [[op("ins", 1), op("ins", 2), op("ins", 3)], [op("rem"), op("rem"), op("rem")]],
                   [[op("tins", 1), op("trem"), op("tins", 2)], [op("trem"), op("tins", 3)]],
                   [[op("tins", 1), op("tins", 2), op("tins", 3), op("tins", 4)]]):
            prog("bounded", th, cap=cap)
            if cap == 1:
                prog("unbounded", th)
    for q in range(c.q(50, 400)):
        kind = rng.choice(["bounded", "bounded", "unbounded"])
        v = 0
        th = []
        if rng.random() < 0.5:       # mixed calls that may fail
            for t in range(rng.randint(2, 3)):
                th.append([])
                for _ in range(rng.randint(1, 5)):
                    v += 1
                    th[-1].append(op("tins", v) if rng.random() < 0.55 else op("trem"))
        else:                        # blocking producers and consumers, equal numbers
            np, nc = rng.randint(1, 2), rng.randint(1, 2)
            for t in range(np):
                th.append([op("ins", 10 * t + i + 1) for i in range(rng.randint(1, 4))])
            left = sum(len(t) for t in th)
            for t in range(nc):
                k = left if t == nc - 1 else rng.randint(0, left)
                th.append([op("rem") for _ in range(k)])
                left -= k
        prog(kind, th, cap=rng.randint(1, 4) if kind == "bounded" else 1000000, late=rng.randint(0, 1))
    for q in range(c.q(16, 60)):
        n, g = rng.randint(1, 4), rng.randint(1, 4)
        th = [[op("wait")] * g for _ in range(n)]
        kw = dict(gens=g, resize=rng.randint(0, 1))
        x = rng.random()
        if x < 0.2 and n > 1:        # one thread stays away: nobody may pass the last barrier
            th[rng.randrange(n)].pop()
        prog("barrier", th, **kw)
    for n in (2, 3):
        prog("lock", [[op("lock")] * 2 for _ in range(n)])
        prog("extreme", [[op(rng.choice(["max", "min"]), rng.randint(-9, 9)) for _ in range(2)] for t in range(n)])
        prog("extreme", [[op("max", rng.randint(1, 9)) for _ in range(3)] for t in range(n)])
        prog("extreme", [[op("min", -rng.randint(1, 9)) for _ in range(3)] for t in range(n)])
    key = build.ensure_core()
    exe = build.compile_cached(os.path.join(build.VERIF, "harness", "prims.cc"), os.path.join(build.BUILD, "prims"), key,
                               extra=("-O1", "-I" + os.path.join(build.VERIF, "harness")))
    import json, subprocess
    from concurrent.futures import ThreadPoolExecutor
    d = c.dir("p21")

    def go(i):
        a, b = os.path.join(d, "in%d" % i), os.path.join(d, "out%d" % i)
        json.dump(progs[i::8], open(a, "w"))
        try:
            r = subprocess.run([exe, a, b, str(c.seed * 1000 + i)], timeout=c.q(200, 3000), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        except subprocess.TimeoutExpired:
            return None, "no end", progs[i::8]
        if r.returncode:
            return None, "exit code %d\n%s" % (r.returncode, r.stdout[-1000:]), progs[i::8]
        return json.load(open(b)), None, None
    seqs, runs, full = [], 0, 0
    with ThreadPoolExecutor(8) as ex:
        for res, err, pr in ex.map(go, range(8)):
            if err:
                c.violation("a program of queue, barrier and lock calls failed", err, {"programs.json": pr})
                continue
            for p in res:
                runs += p["runs"]
                full += p["complete"]
                for h in p["hist"]:
                    seqs.append(dict(kind=p["prog"]["kind"], cap=p["prog"]["cap"], n=p["prog"]["n"], prog=p["prog"]["threads"], l=h))
    c.add(schedules=runs, programs=len(progs), programs_with_all_schedules_within_bound=full)
    c.log("%d schedules of %d programs (%d with every schedule of the preemption bound), %d histories" % (runs, len(progs), full, len(seqs)))
    judge(c, "ThreadPrimTrace", seqs, seqs, "queue, barrier or lock", batch=4000)


def p19(c):
    c.tlc_exhaustive("MCSerialize", workers=8)
    c.tlc_exhaustive("MCSerialize", "MCSerializeTree", workers=8)
    import graphs
    rng = c.rng
    seqs = []
    for q in range(c.q(160, 2500)):
        l = []
        for _ in range(6):
            t = rng.randint(0, 3) > 0
            l.append({"op": "graph", "tracked": int(t), "g": graphs.graph(rng, t, rng.choice([1, 3, 6, 12, 25]))})
        seqs.append({"kind": "graph", "l": l})
    for q in range(c.q(40, 800)):
        seqs.append({"kind": "vals", "l": [{"op": "vals", "tracked": rng.randint(0, 1), "seed": rng.randint(0, 2**31)} for _ in range(6)]})
    judge(c, "SerializeTrace", seqs, drive.run_all(c, "vfser", seqs), "serialization", batch=100)


# ---- P17 ----
INTS = {"i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "ll": (-2**63, 2**63 - 1),
        "u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "ull": (0, 2**64 - 1)}
TYPES = ["str", "bool", *INTS, "f64", "f32"]
ZERO = dict({t: "0" for t in INTS}, str="", bool="false", f64="0" * 16, f32="0" * 16)
TRUE, FALSE = ["true", "t", "yes", "y", "on", "1"], ["false", "f", "no", "n", "off", "0"]


def bits(x):
    return "%016x" % struct.unpack("<Q", struct.pack("<d", x))[0]


def conv(text, num=None):
    """The types a text can be read as, with the value shown as text; num: its exact value if it is a number."""
    c = {}
    if text.lower() in TRUE + FALSE:
        c["bool"] = "true" if text.lower() in TRUE else "false"
    if num is None:
        return c
    if isinstance(num, int):
        for t, (lo, hi) in INTS.items():
            if lo <= num <= hi:
                c[t] = str(num)
            elif num < 0 and lo == 0:
                c[t] = "*"         # wraps around, and is used as a way to write the largest value
    else:
        for t in INTS:
            c[t] = "*"
    f = float(num if text.lower().lstrip("+-").startswith("0x") else text)
    c["f64"] = bits(f)
    c["f32"] = bits(struct.unpack("<f", struct.pack("<f", f))[0])
    return c


def number(rng):
    x = rng.random()
    if x < 0.6:
        e = rng.choice([8, 16, 31, 32, 63, 64])
        n = rng.choice([0, 1, rng.randint(2, 127), rng.randint(0, 2**e - 1), 2**e - 1, 2**e, 2**(e - 1), -2**(e - 1), -2**(e - 1) - 1, -rng.randint(1, 100)])
        if not -2**63 <= n < 2**64:
            n = 2**64 - 1
        how = rng.choice(["d", "d", "d", "x", "o", "+"])
        t = str(n)
        if how == "x":
            t = ("-" if n < 0 else "") + rng.choice(["0x%x", "0X%X"]) % abs(n)
        elif how == "o" and n > 7:
            t = "0%o" % n
        elif how == "+" and n >= 0:
            t = "+" + t
        return t, n
    v = rng.choice([rng.uniform(-10, 10), rng.uniform(0, 1e6), rng.randint(1, 999) / 8.0])
    t = rng.choice(["%.3f" % v, "%.17g" % v, "%.5e" % v])
    return t, (v if any(ch in t for ch in ".eE") else int(t))


def words(rng):
    return rng.choice(["", "hello", "x y", " lead", "trail ", "a,b", "k: v", "it's", 'say "hi"', 'both \' and "', "[", "{x}", "a.b.c", "%d", "true", "No", "ON", "T", "1", "0"])


def scalar(rng):
    if rng.random() < 0.55:
        t, n = number(rng)
        return {"x": t, "c": conv(t, n), "kind": "one", "it": []}
    t = words(rng) if rng.random() < 0.7 else "".join(rng.choice((str.lower, str.upper))(ch) for ch in rng.choice(TRUE + FALSE))
    return {"x": t, "c": conv(t, int(t) if t in ("0", "1") else None), "kind": "one", "it": []}


def value(rng):
    """A value: its text, what it can be read as, and its items."""
    if rng.random() < 0.6:
        v = scalar(rng)
        while v["x"][:1] in ("[", "{"):
            v = scalar(rng)
        return v
    kind = rng.choice(["array", "array", "set", "map"])
    items, txt = [], []
    homog = rng.choice(["num", "word", "any"])
    for _ in range(rng.choice([0, 1, 2, 3, 6]) if kind != "set" else rng.choice([1, 2, 3, 6])):
        if homog == "num" or (homog == "any" and rng.random() < 0.5):
            t, n = number(rng)
            it, s = {"x": t, "c": conv(t, n)}, t if rng.random() < 0.7 else repr(t)
        else:
            t = words(rng)
            it, s = {"x": t, "c": conv(t, int(t) if t in ("0", "1") else None)}, repr(t)
        if kind == "map":
            it["k"] = rng.choice(["a", "b c", "d,e", "f:g", "it's", "zz", "m"])
            s = repr(it["k"]) + rng.choice([":", ": ", " : "]) + s
        items.append(it)
        txt.append(s)
    body = rng.choice([", ", ",", " , "]).join(txt)
    if rng.random() < 0.2:
        body = " " + body + "  "
    if kind == "map" and not items:
        body = ""
    x = {"array": "[%s]", "set": "{%s}" if rng.random() < 0.7 else "set([%s])", "map": "{%s}"}[kind] % body
    # curly braces: a list without pairs is a set, anything between them may be asked for as a map
    return {"x": x, "c": {}, "kind": kind, "it": items}


def p17(c):
    c.tlc_exhaustive("MCParams", workers=8)
    rng = c.rng
    uniq = [0]

    def seq(par):
        uniq[0] += 1
        sets = ["S%d_%d" % (uniq[0], i) for i in range(rng.choice([1, 2, 3]))]
        segs = ["a", "b", "aa", "c", "n%d" % uniq[0], ""] if rng.random() < 0.3 else ["a", "b", "aa"]
        key = lambda n=None: [rng.choice(segs) for _ in range(n or rng.choice([1, 1, 2, 3]))]
        l, live, made = [{"op": "new", "o": 0}], [0], set()
        for _ in range(rng.choice([15, 40, 80])):
            x, o = rng.random(), rng.choice(live)
            o2 = rng.choice([o, len(live), len(live)] + live)
            if x < 0.18:
                l.append({"op": "insert", "o": o, "k": key(), "v": value(rng), "ow": rng.randint(0, 1)})
            elif x < 0.30:
                s = rng.choice(sets)
                l.append({"op": "share", "set": s, "k": key(), "v": value(rng), "ow": rng.randint(0, 1)})
            elif x < 0.37:
                l.append({"op": "addset", "o": o, "set": rng.choice(sets)})
            elif x < 0.42:
                l.append({"op": "copy", "o": o2, "from": o})
            elif x < 0.45:
                l.append({"op": "assign", "o": o, "from": rng.choice(live)})
            elif x < 0.50:
                l.append({"op": "merge", "o": o, "from": rng.choice([y for y in live if y != o] or [o])})
            elif x < 0.58:
                l.append({"op": "scope", "o": o2, "from": o, "k": key(rng.choice([1, 1, 2]))})
            elif x < 0.61:
                l.append({"op": "ser", "o": o2, "from": o, "tracked": 1 if par else rng.randint(0, 1)})
            elif x < 0.62:
                l.append({"op": "clear", "o": o})
            elif x < 0.80:
                t, form = rng.choice(TYPES), rng.choice(["none", "txt", "txtf", "val", "valf"])
                if form == "txtf" and t == "str":
                    form = "valf"
                d = scalar(rng)
                while form not in ("txt", "txtf") and (t != "str" and (t not in d["c"] or d["c"][t] == "*")):
                    d = scalar(rng)
                dc = ZERO[t] if form == "none" else d["x"] if t == "str" else d["c"].get(t, "refused")
                l.append({"op": "find", "o": o, "k": key(), "t": t, "form": form, "d": d["x"], "dc": dc})
            elif x < 0.90:
                t = rng.choice(["str", "i32", "i64", "u64", "bool", "f64"])
                l.append({"op": "list", "o": o, "k": key(), "t": t, "as": rng.choice(["array", "set", "map"]), "zero": ZERO[t]})
            else:
                l.append({"op": rng.choice(["has", "keys", "size", "sets", "isarr"] + ([] if par else ["local"])), "o": o, "k": key()})
            if l[-1].get("o", -1) not in live and "o" in l[-1]:
                live.append(l[-1]["o"])
        for o in live:
            l += [{"op": "keys", "o": o}, {"op": "size", "o": o}, {"op": "sets", "o": o}]
            for _ in range(6):
                l.append({"op": "find", "o": o, "k": key(), "t": "str", "form": "none", "d": "", "dc": ""})
        return {"l": l}

    seqs = [{"par": [seq(True) for _ in range(4)]} if q % 4 == 0 else seq(False) for q in range(c.q(240, 3000))]
    res = drive.run_all(c, "vfpar", seqs)
    flat = [y for x in res if x is not None for y in x.get("par", [x])]
    judge(c, "ParamsTrace", seqs, flat, "parameter sets", batch=400)


# ---- P18 ----
PREF = {"a": -18, "f": -15, "p": -12, "n": -9, "u": -6, "m": -3, "k": 3, "K": 3, "M": 6, "G": 9, "T": 12, "P": 15, "E": 18}
BINP = {"ki": 1, "Ki": 1, "Mi": 2, "Gi": 3, "Ti": 4, "Pi": 5, "Ei": 6}
UNITS = {"s": {"s": 1}, "B": {"B": 1}, "b": {"b": 1}, "events": {"events": 1}, "event": {"events": 1}, "Hz": {"s": -1}, "hz": {"s": -1},
         "Bps": {"B": 1, "s": -1}, "bps": {"b": 1, "s": -1}, "one": {}}


def nat(n):
    w = []
    while n:
        w.append(n % 10000)
        n //= 10000
    return w


def read_quantity(text):
    """A printed quantity as [neg, m, u]: notation only."""
    num, _, unit = text.partition(" ")
    mul = 0
    u = {"s": 0, "B": 0, "b": 0, "events": 0}
    for i, part in enumerate(unit.split("/")):
        for w in part.split("-"):
            if w in ("", "1"):
                continue
            if w not in UNITS:
                mul += PREF[w[0]]
                w = w[1:]
            for k, v in UNITS[w if w not in ("", "1") else "one"].items():
                u[k] += v if i == 0 else -v
    return dict(read_number(num, mul), u=u)


def read_number(num, mul=0, keep=24):
    neg = num.startswith("-")
    m, _, e = num.lstrip("-").lower().partition("e")
    a, _, f = m.partition(".")
    v, sc = int(a + f), keep + int(e or 0) - len(f) + mul
    v = v * 10**sc if sc >= 0 else v // 10**-sc
    return {"neg": 1 if neg else 0, "m": nat(v)}


def units_notation(x):
    """Rewrites the printed results of a sequence as records of digits."""
    for r in x["l"]:
        op = r["op"]
        if op in ("set", "copy", "add", "sub", "mul", "times", "div", "inv", "str", "best", "ser"):
            r["r"] = read_quantity(r["r"]) if r["r"] != "" else read_quantity("0")
        elif op == "round":
            r.update(neg=1 if r["r"].startswith("-") else 0, m=nat(abs(int(r["r"]))))
        elif op == "double":
            r["r"] = dict(read_number(r["r"]), u={"s": 0, "B": 0, "b": 0, "events": 0})
        elif op == "factor":
            r["m"] = nat(int(r["m"]))
        elif op == "conv":
            for k in ("m", "to", "from", "c", "t"):
                r[k] = nat(int(r[k]))
    return x


def quantity_text(rng, digits, exp, fac, neg=0):
    """A text for (-)digits*10^exp with unit factors, in one of many spellings; digits is the integer written."""
    d = str(digits)
    how, e = rng.choice(["int", "exp", "dot", "dot", "dotexp"]), exp
    if how == "int" and 0 <= exp <= 6:
        num, e = d + "0" * exp, 0
    elif how == "dot" and -20 <= exp < 0:
        z = d.rjust(1 - exp, "0")
        num, e = z[:exp] + "." + z[exp:], 0
    elif how == "dotexp":
        k = rng.randint(0, len(d) - 1)
        num, e = (d[:len(d) - k] + "." + d[len(d) - k:] if k else d), exp + k
    else:
        num = d
    if e:
        num += rng.choice(["e%d", "E%d", "e%+d"]) % e
    num = ("-" if neg else "") + num
    up = [f for f in fac if f["n"] == 1]
    dn = [f for f in fac if f["n"] == -1]
    w = lambda f: "1" if f["w"] == "one" else f["p"] + f["w"]
    u = "-".join(map(w, up)) or ("1" if dn else "")
    if dn:
        u += "/" + "-".join(map(w, dn))
    if u[:1] == "1" and not num.endswith(" "):
        sep = None                 # "1/s" after a number would read as one more digit
    else:
        sep = rng.choice(["", " ", " ", "  "])
    if sep is None:
        up, u = [{"p": "", "w": "one", "n": 1}], None
        return None
    # a unit starting with e or E right after the digits would read as an exponent
    x = rng.choice(["", "", " "]) + num + sep + u + rng.choice(["", "", " "])
    return {"x": x, "neg": neg, "d": nat(digits), "e": exp, "f": fac}


def gen_text(rng, kinds):
    while True:
        fac = []
        kind = rng.choice(kinds)
        if kind == "time":
            fac = [{"p": rng.choice(["", "m", "u", "n", "n", "p", "p", "f", "k"]), "w": "s", "n": 1}]
        elif kind == "freq":
            fac = [{"p": rng.choice(["", "k", "K", "M", "M", "G", "G", "T", "Mi", "Gi"]), "w": rng.choice(["Hz", "Hz", "hz"]), "n": 1}]
        elif kind == "bw":
            fac = rng.choice([[{"p": rng.choice(["", "k", "M", "G", "Gi", "Ki", "T"]), "w": rng.choice(["B", "b"]), "n": 1}, {"p": rng.choice(["", "", "m", "u", "n"]), "w": "s", "n": -1}],
                              [{"p": rng.choice(["", "G", "Mi", "k"]), "w": rng.choice(["Bps", "bps"]), "n": 1}]])
        elif kind == "any":
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                fac.append({"p": rng.choice(["", "", "", *PREF, *BINP]), "w": rng.choice([x for x in UNITS if x != "one"]), "n": rng.choice([1, 1, -1])})
            fac.sort(key=lambda f: -f["n"])
            if fac and fac[0]["n"] == -1:
                continue
        digits = rng.choice([0, 1, 1, 2, 5, 10, 25, rng.randint(1, 999), rng.randint(1, 10**6), rng.randint(1, 10**rng.randint(7, 17))])
        exp = rng.choice([0, 0, 0, 0, 1, 3, -1, -2, -3, rng.randint(-12, 9)])
        e10 = exp + sum(f["n"] * PREF.get(f["p"], 0) for f in fac)
        two = sum(f["n"] * BINP.get(f["p"], 0) for f in fac)
        # exactly representable: prefixes are powers of ten, a binary one only in the numerator
        if any(f["p"] in BINP and f["n"] == -1 for f in fac):
            continue
        steps, a = [exp], exp
        if exp < -22 or e10 < -22 or len(str(digits)) + exp > 20 or len(str(digits)) + e10 + two * 3.02 > 19:
            continue
        # the prefixes are applied one after the other to the number 1
        t = 0
        ok = True
        for f in fac:
            t += f["n"] * PREF.get(f["p"], 0) + 3.1 * BINP.get(f["p"], 0)
            ok = ok and -22 <= t <= 20
        if not ok or two > 5:
            continue
        neg = 1 if rng.random() < 0.12 and kind != "clock" else 0
        r = quantity_text(rng, digits, exp, fac, neg)
        if r:
            r["v"] = 0
            return r, (-1 if neg else 1) * digits * 10.0**e10 * 1024.0**two, kind


def p18(c):
    c.tlc_exhaustive("MCUnits", workers=8)
    rng = c.rng

    def factor_text(base):
        """A time or frequency around what the base can represent."""
        ex = base["e"] + PREF.get(base["f"][0]["p"], 0)
        b = base["dd"]
        x = rng.random()
        if x < 0.25:                                   # a multiple of the base, a little more or less
            k = rng.choice([1, 1, 1, 2, 3, 7, 10, 1000, rng.randint(1, 10**9), 2**32, 2**53 + 1, rng.randint(2**53, 2**62)])
            digits, e = b * k * 1000 + rng.choice([0, 0, 0, 1, -1, 499, 500, 501]), ex - 3
        elif x < 0.35:                                 # the limits
            k = rng.choice([2**64 - 1, 2**64 - 2, 2**64, 2**63, 2**63 - 1, 2**64 + 10**6])
            digits, e = b * k * 10 + rng.choice([0, 0, 1, 4, 5, -1]), ex - 1
        else:
            return None
        # as a text in some prefix
        p = rng.choice(["", "", "n", "p", "u", "m", "f", "k"])
        e -= PREF.get(p, 0)
        if e + PREF.get(p, 0) < -24 or e < -24 or len(str(digits)) + e > 22 or len(str(digits)) + e + PREF.get(p, 0) > 22:
            return None
        return quantity_text(rng, digits, e, [{"p": p, "w": "s", "n": 1}], 0)

    def seq(base):
        l, val = [], {}
        for i in range(6):
            t, val[i], k = gen_text(rng, ["time", "freq", "any"])
            l.append({"op": "set", "o": i, "how": "ctor", "t": t})
        un = lambda: rng.choice(["time", "freq", "bw", "any", "time", "any"])
        seen = []
        for _ in range(rng.choice([20, 40])):
            x = rng.random()
            a, b, d = rng.choice(list(val)), rng.choice(list(val)), rng.randint(0, 5)
            if x < 0.22:
                t, v, k = gen_text(rng, [un()])
                l.append({"op": "set", "o": d, "how": rng.choice(["ctor", "assign"]), "t": t})
                val[d] = v
            elif x < 0.26:
                l.append({"op": rng.choice(["copy", "ser"]), "o": d, "a": a})
                val[d] = val[a]
            elif x < 0.34:
                # often with the same unit
                l.append({"op": rng.choice(["add", "sub"]), "o": a if rng.random() < 0.3 else d, "a": a, "b": b})
                val[l[-1]["o"]] = max(abs(val[a]), abs(val[b]), abs(val[l[-1]["o"]])) * 2
            elif x < 0.40:
                if abs(val[a] * val[b]) < 1e19 and max(abs(val[a]), abs(val[b])) < 1e19:
                    l.append({"op": "mul", "o": d, "a": a, "b": b})
                    val[d] = val[a] * val[b]
            elif x < 0.44:
                n = rng.choice([0, 1, 2, 7, 1000, rng.randint(1, 10**rng.randint(1, 18))])
                if abs(val[a] * n) < 1e19:
                    l.append({"op": "times", "o": d, "a": a, "n": {"neg": rng.randint(0, 1), "x": str(n), "m": nat(n)}})
                    val[d] = val[a] * n
            elif x < 0.48:
                # a fresh divisor of known size
                t, v, k = gen_text(rng, [un()])
                if 1e-12 < abs(v) < 1e15 and abs(val[a]) < 1e15 and abs(val[a] / v) < 1e19:
                    l.append({"op": "set", "o": 5, "how": "ctor", "t": t})
                    val[5] = v
                    if rng.random() < 0.7:
                        l.append({"op": "div", "o": d, "a": a, "b": 5})
                        val[d] = val[a] / v if a != 5 else 1.0
                    else:
                        l.append({"op": "inv", "o": d, "a": 5})
                        val[d] = 1 / v
            elif x < 0.56:
                l.append({"op": "cmp", "a": a, "b": b})
            elif x < 0.60:
                f = gen_text(rng, [un()])[0]["f"]
                x = "-".join(g["w"] for g in f if g["n"] == 1) + ("/" + "-".join(g["w"] for g in f if g["n"] == -1) if any(g["n"] == -1 for g in f) else "")
                l.append({"op": "has", "a": a, "f": f, "x": x})
            elif x < 0.63:
                l.append({"op": "zero", "a": a})
            elif x < 0.66:
                if abs(val[a]) < 9e18:
                    l.append({"op": "round", "a": a})
            elif x < 0.68:
                l.append({"op": "double", "a": a})
            elif x < 0.72:
                l.append({"op": rng.choice(["str", "best"]), "a": a, "p": rng.choice([0, 1, 2, 3, 6, 6, 10, 20, 40])})
            elif x < 0.95:
                if rng.random() < 0.8:
                    t = factor_text(base) or gen_text(rng, ["time", "freq", "time", "freq", "bw"])[0]
                    if rng.random() < 0.3 and seen:
                        t = rng.choice(seen)
                    seen.append(t)
                    l.append({"op": "factor", "how": "text", "t": t, "via": rng.randint(0, 3)})
                    if rng.random() < 0.4:
                        l += [{"op": "set", "o": 4, "how": "ctor", "t": t}, {"op": "factor", "how": "ua", "a": 4, "via": rng.randint(0, 1)}]
                        val[4] = 1.0e19
                else:
                    l.append({"op": "factor", "how": "ua", "a": a, "via": rng.randint(0, 1)})
            else:
                l.append({"op": "conv", "x": "%d%s" % (rng.choice([1, 1, 7, 1000]), rng.choice(["us", "ms", "us", "kHz", "us"])),
                          "c": str(rng.choice([0, 1, rng.randint(0, 10**6)])), "t": str(rng.choice([0, 1, rng.randint(0, 10**6), rng.randint(0, 2**64 - 1)]))})
        return l

    bases = [("1ps", 1, 0, "p"), ("1fs", 1, 0, "f"), ("1ns", 1, 0, "n"), ("10ps", 10, 0, "p"), ("3ps", 3, 0, "p"), ("7fs", 7, 0, "f"), ("2.5ns", 25, -1, "n"), ("1as", 1, 0, "a")]
    for i, (txt, dd, e, p) in enumerate(bases):
        base = {"x": txt, "neg": 0, "d": nat(dd), "dd": dd, "e": e, "f": [{"p": p, "w": "s", "n": 1}]}
        seqs = []
        for q in range(c.q(40, 600)):
            if q % 8 == 7:
                seqs.append({"par": [{"base": base, "l": seq(base)} for _ in range(4)]})
            else:
                seqs.append({"base": base, "l": seq(base)})
        res = drive.run_all(c, "vfuni", seqs, name="u%d_" % i, args=["--timebase=" + txt])
        flat = [units_notation(y) for x in res if x is not None for y in x.get("par", [x])]
        judge(c, "UnitsTrace", seqs, flat, "quantities with core time base " + txt, batch=200)


LIBS = dict(P18="vfuni", P17="vfpar", P19="vfser", P24="vfpool", P20="vftv", P23="vfrng", P26="vfsvm")
ALL = dict(P18=p18, P17=p17, P19=p19, P24=p24, P21=p21, P20=p20, P23=p23, P26=p26)


def entry(pid):
    def f(c):
        key = build.ensure_core()
        build.elements(key, *[x for x in [LIBS.get(pid)] if x])
        c.log("built")
        ALL[pid](c)
    return check.main(pid, f)


if __name__ == "__main__":
    sys.exit(entry(sys.argv[1]))
