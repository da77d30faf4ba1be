"""Common frame of every check: build, run, evidence, known findings, exit codes."""
import json, os, random, shutil, sys, tempfile, time, traceback
import build, tlc

VERIF = build.VERIF
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
FINDINGS = os.path.join(VERIF, "known-findings.json")


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.thorough = TIER == "thorough"
        self.seed = SEED
        self.rng = random.Random(SEED * 7919 + int(pid[1:]))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.viol = []
        self.known = []
        self.work = tempfile.mkdtemp(prefix="vf.%s." % pid)
        self.findings = [f for f in json.load(open(FINDINGS))["findings"] if f["property"] == pid] \
            if os.path.exists(FINDINGS) else []

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %5.1fs]" % (self.pid, time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def dir(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s, n=6):
        if len(self.cov["samples"]) < n:
            self.cov["samples"].append(s)

    def tlc_exhaustive(self, module, cfg=None, **kw):
        r = tlc.check(module, cfg, **kw)
        self.add(states=r.distinct, transitions=r.generated)
        self.cov.setdefault("models", []).append("%s/%s: %d distinct states, %d transitions, complete" %
                                                 (module, cfg or module, r.distinct, r.generated))
        self.log("TLC %s %s: %d states" % (module, cfg or "", r.distinct))
        return r

    def violation(self, title, detail, files=None, known_key=None):
        """Report something that breaks the property (or a listed finding)."""
        for f in self.findings:
            if f.get("status", "open") == "open" and known_key is not None and f["key"] == known_key:
                if f["key"] not in [k["key"] for k in self.known]:
                    self.known.append(f)
                return
        self.viol.append((title, detail, files or {}))

    def finish(self):
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": self.seed,
              "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        rc = 0
        if self.viol:
            rc = 1
            rp = os.path.join(build.BUILD, "replay", self.pid)
            shutil.rmtree(rp, ignore_errors=True)
            os.makedirs(rp)
            for i, (title, detail, files) in enumerate(self.viol[:5]):
                d = os.path.join(rp, str(i))
                os.makedirs(d)
                with open(os.path.join(d, "what.txt"), "w") as f:
                    f.write(title + "\n" + str(detail) + "\n")
                for n, c in files.items():
                    with open(os.path.join(d, n), "w") as f:
                        f.write(c if isinstance(c, str) else json.dumps(c))
                self.log("VIOLATION:", title, "|", str(detail)[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        self.log("done: %d violation(s), %s" % (len(self.viol), {k: v for k, v in self.cov.items() if isinstance(v, int)}))
        shutil.rmtree(self.work, ignore_errors=True)
        return rc


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
    except (build.BuildError, tlc.TlcError) as e:
        print("ERROR", e, file=sys.stderr)
        shutil.rmtree(c.work, ignore_errors=True)
        return 2
    except Exception:
        traceback.print_exc()
        shutil.rmtree(c.work, ignore_errors=True)
        return 3
    return c.finish()
