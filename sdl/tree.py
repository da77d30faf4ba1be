# Builds component trees from the JSON file named in VF_MODEL.
import json, os, sst
m = json.load(open(os.environ["VF_MODEL"]))
obj, shared = {}, {}
if "statload" in m:
    sst.setStatisticLoadLevel(m["statload"])
sst.setStatisticOutput("sst.statOutputTXT", {"filepath": os.path.join(os.environ["VF_OUT"], "stats.txt")})
for c in m["nodes"]:
    if c["kind"] == "comp":
        o = sst.Component(c["name"], c["type"])
        o.setRank(c["rank"][0], c["rank"][1])
    else:
        o = obj[c["parent"]].setSubComponent(c["slot"], c["type"], c["num"])
    obj[c["id"]] = o
    for k, v in c["params"].items():
        o.addParam(k, v)
    if "coord" in c:
        o.setCoordinates(c["coord"], 0, 0)
for s in m["stats"]:
    o = obj[s["n"]]
    if s["do"] == "level":
        o.setStatisticLoadLevel(s["level"], s["rec"])
    elif s["do"] == "all":
        o.enableAllStatistics(s["params"], s["rec"])
    elif s["do"] == "on":
        o.enableStatistics([s["s"]], s["params"], s["rec"])
    elif s["do"] == "make":
        shared[s["id"]] = o.createStatistic(s["name"], s["params"])
    elif s["do"] == "use":
        o.setStatistic(s["s"], shared[s["id"]])
for i, l in enumerate(m["links"]):
    sst.Link("l%d" % i).connect((obj[l["a"][0]], l["a"][1], "%dps" % l["la"]), (obj[l["b"][0]], l["b"][1], "%dps" % l["lb"]))
for p in m["pmods"]:
    obj[p["n"]].addPortModule(p["port"], "vfsc.Mod", p["params"])
