"""Runs sequences of calls on a part of the core (elements/vfapi.h)."""
import json, os
import build, run
from concurrent.futures import ThreadPoolExecutor

SDL = os.path.join(build.VERIF, "sdl", "drive.py")


class DriveError(Exception):
    """The real code died on one of the sequences."""


def one(c, lib, seqs, name, timeout=200, env=None, threads=1, args=()):
    d = c.dir(name)
    with open(os.path.join(d, "in.json"), "w") as f:
        json.dump(seqs, f)
    e = {"VF_IN": os.path.join(d, "in.json"), "VF_RES": os.path.join(d, "res.json"), "VF_COMP": lib + ".Drive"}
    e.update(env or {})
    if threads > 1:
        e["VF_THREADS"] = str(threads)
        args = ["--partitioner=sst.self", *args]
    r = run.sst(["--run-mode=init", *args], d, sdl=SDL, timeout=timeout, env=e, threads=threads)
    if r.rc != 0:
        txt = open(e["VF_RES"]).read() if os.path.exists(e["VF_RES"]) else ""
        done = txt.count("\n") + (1 if len(txt) > 1 else 0)
        return None, "exit code %s after %d of %d sequences\n%s" % (r.rc, done, len(seqs), r.out[-1500:])
    return json.load(open(e["VF_RES"])), None


def run_all(c, lib, seqs, name="d", jobs=8, **kw):
    """Returns results for all sequences; a crash is a violation and gives None for its chunk."""
    n = max(1, min(jobs, (len(seqs) + 3) // 4))
    chunks = [seqs[i::n] for i in range(n)]
    out = [None] * len(seqs)
    with ThreadPoolExecutor(n) as ex:
        for i, (res, err) in enumerate(ex.map(lambda i: one(c, lib, chunks[i], "%s%d" % (name, i), **kw), range(n))):
            if err:
                c.violation("the simulator died while running %s calls" % lib, err, {"in.json": chunks[i]})
                continue
            for j, r in enumerate(res):
                out[i + j * n] = r
    return out
