# Builds the model of the JSON file named in VF_MODEL for console sessions.
import json, os, sst
m = json.load(open(os.environ["VF_MODEL"]))
obj = {}
sst.setStatisticLoadLevel(5)
sst.setStatisticOutput("sst.statOutputTXT", {"filepath": os.path.join(os.environ["VF_OUT"], "stats.txt")})
for c in m["nodes"]:
    if "parent" in c:
        o = obj[c["parent"]].setSubComponent("part", "vfcon.Sub", c["num"])
    else:
        o = sst.Component(c["name"], "vfcon.Node")
        o.setRank(c["rank"][0], c["rank"][1])
    obj[c["name"]] = o
    for k, v in c["params"].items():
        o.addParam(k, v)
    o.enableAllStatistics({"rate": "0ns"})
for i, l in enumerate(m["links"]):
    sst.Link("l%d" % i).connect((obj[l["a"]], l["pa"], "%dps" % l["la"]), (obj[l["b"]], l["pb"], "%dps" % l["lb"]))
