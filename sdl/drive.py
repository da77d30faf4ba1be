import os, sst
c = sst.Component("drive", os.environ["VF_COMP"])
n = int(os.environ.get("VF_THREADS", "1"))
if n > 1:
    c.setRank(0, 0)
for i in range(1, n):
    x = sst.Component("idle%d" % i, os.environ["VF_COMP"])
    x.addParam("idle", 1)
    x.setRank(0, i)
