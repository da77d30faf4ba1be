# Builds the model described by the JSON file named in VF_MODEL.
import json, os, sst
m = json.load(open(os.environ["VF_MODEL"]))
u = m.get("unit", 1)
for k, v in m.get("options", {}).items():
    sst.setProgramOption(k, v)
comps = {}
def fill(obj, c):
    for k, v in c.get("params", {}).items():
        obj.addParam(k, v)
    for g, d in c.get("gsets", {}).items():
        obj.addGlobalParamSet(g)
for g, d in m.get("globals", {}).items():
    sst.addGlobalParams(g, d)
for c in m["comps"]:
    o = sst.Component(c["name"], c["type"])
    comps[c["name"]] = o
    fill(o, c)
    for g in c.get("gsets", []):
        o.addGlobalParamSet(g)
    if "rank" in c:
        o.setRank(c["rank"][0], c["rank"][1])
    if "weight" in c:
        o.setWeight(c["weight"])
    for s in c.get("subs", []):
        so = o.setSubComponent(s["slot"], s["type"], s.get("num", 0))
        comps[c["name"] + "/" + s["id"]] = so
        for k, v in s.get("params", {}).items():
            so.addParam(k, v)
if "statload" in m:
    sst.setStatisticLoadLevel(m["statload"])
if "statout" in m:
    sst.setStatisticOutput(m["statout"][0])
    for k, v in m["statout"][1].items():
        sst.setStatisticOutputOption(k, v)
for s in m.get("stats", []):
    if s["name"] == "*":
        comps[s["comp"]].enableAllStatistics(s.get("params", {}))
    else:
        comps[s["comp"]].enableStatistics([s["name"]], s.get("params", {}))
for g in m.get("sgroups", []):
    go = sst.StatisticGroup(g["name"])
    if g.get("freq"):
        go.setFrequency(g["freq"])
    if g.get("out"):
        go.setOutput(sst.StatisticOutput(g["out"][0], g["out"][1]))
    for n, prm in g["stats"]:
        go.addStatistic(n, prm)
    for cn in g["comps"]:
        go.addComponent(comps[cn])
for i, l in enumerate(m.get("links", [])):
    k = sst.Link(l.get("name", "l%d" % i))
    if l.get("nocut"):
        k.setNoCut()
    k.connect((comps[l["a"][0]], l["a"][1], "%dps" % (l["la"] * u)),
              (comps[l["b"][0]], l["b"][1], "%dps" % (l["lb"] * u)))
for p in m.get("pmods", []):
    comps[p["comp"]].addPortModule(p["port"], p["type"], p.get("params", {}))
