"""Random object graphs for the serializer (elements/vfser.cc).  A graph is made in the
order in which its objects are serialized: every reference met is null, or goes to a new
object, or to one met before, so embedded objects are never pointed to before they are
serialized in place (the serializer's stated precondition)."""


def graph(rng, tracked, size):
    nodes, budget = {}, [size]
    seen = {"B": [], "P": [], "S": [], "V": [], "T": []}
    must = []

    def new(k):
        budget[0] -= 1
        n = "%s%d" % (k, len(nodes))
        nodes[n] = {"k": k, "v": rng.randint(-100, 100)}
        return n

    def ref(kind, depth):
        x = rng.random()
        if x < 0.3 or (budget[0] <= 0 and (not tracked or not seen[kind])):
            return None
        if tracked and seen[kind] and (x < 0.65 or budget[0] <= 0):
            # recent objects and old ones alike
            return rng.choice(seen[kind][-3:] if rng.random() < 0.5 else seen[kind])
        if budget[0] <= 0 or (depth > 12 and rng.random() < 0.7):
            return None
        if kind == "B":
            n = new(rng.choice("AB"))
            seen["B"].append(n)
            obj(n, depth + 1)
        else:
            n = new(kind)
            seen[kind].append(n)
            if kind == "P":
                plain(nodes[n], depth + 1)
            elif kind == "V":
                nodes[n]["e"] = []
                for _ in range(cnt()):
                    nodes[n]["e"].append(ref("B", depth + 1))
            else:
                nodes[n]["e"] = [ref("B", depth + 1)]
        return n

    def shared(depth, own=False, expose=False):
        x = rng.random()
        if not own and (x < 0.35 or (budget[0] <= 0 and not seen["S"])):
            return None
        if seen["S"] and (x < 0.7 or budget[0] <= 0):
            return rng.choice(seen["S"])
        if budget[0] <= 0:
            return None
        n = new("S")
        seen["S"].append(n)
        if expose and tracked:
            seen["P"].append(n)
        plain(nodes[n], depth + 1)
        return n

    def cnt():
        return rng.choice([0, 0, 1, 1, 2, 3])

    def plain(d, depth):
        d["v"] = rng.randint(-100, 100)
        d["q"] = ref("P", depth)
        d["b"] = ref("B", depth)
        d["s"] = shared(depth)
        d["w"] = []
        for _ in range(cnt()):
            d["w"].append(ref("P", depth))

    def obj(n, depth):
        d = nodes[n]
        d["emb"] = {}
        if tracked:
            seen["P"].append(n + ".emb")
        plain(d["emb"], depth)
        for f, l in (("ve", cnt()), ("me", cnt())):
            d[f] = [{} for _ in range(l)]
            for i in range(l):
                if tracked:
                    seen["P"].append("%s.%s%d" % (n, f, i))
                plain(d[f][i], depth)

        def refs(kind, l):
            r = []
            for _ in range(l):
                r.append(ref(kind, depth))
            return r
        d["pb"] = refs("B", cnt())
        d["pl"] = refs("P", 2)
        d["mb"] = refs("B", cnt())
        d["mb"].reverse()            # the map is filled with falling keys
        d["lp"] = refs("P", cnt())
        d["ob"] = refs("B", rng.randint(0, 1))
        d["pr"] = [ref("P", depth), ref("B", depth)]
        d["tu"] = [ref("B", depth), ref("P", depth)]
        d["sp"] = [shared(depth), shared(depth)]
        d["so"] = shared(depth, expose=True)
        before = len(seen["S"])
        d["wp"] = shared(depth)
        hold = [d["wp"]] if d["wp"] else []
        d["ub"] = None
        if rng.random() < 0.4 and budget[0] > 0:
            u = d["ub"] = new("P")
            if tracked:
                seen["P"].append(u)
            plain(nodes[u], depth)
        d["sv"] = hold + [s for s in [shared(depth) for _ in range(cnt())]]
        d["in"] = refs("P", 3)
        d["vb"] = ref("V", depth)
        d["tb"] = ref("T", depth)
        if d["k"] == "B":
            d["name"] = "".join(rng.choice("abc \n") for _ in range(rng.choice([0, 1, 5, 40])))
            d["um"] = []
            k = rng.choice([0, 0, 1])      # (of several, the order is not known here)
            d["um"] = refs("P", k)
            va = rng.randint(0, 2)
            d["va"] = [va, ref("P", depth) if va == 1 else ref("B", depth) if va == 2 else None]
            d["db"] = refs("B", cnt())
            d["fl"] = refs("P", cnt())

    root = new(rng.choice("AB"))
    seen["B"].append(root)
    obj(root, 0)
    return {"root": root, "nodes": nodes}
