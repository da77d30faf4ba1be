"""Runs the simulator built from the current tree on a model and collects component logs."""
import glob, hashlib, json, os, re, shutil, subprocess, tempfile, time
import build

MODEL = os.path.join(build.VERIF, "sdl", "model.py")
ENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_rmaps_base_oversubscribe="1",
           OMPI_MCA_btl="self,vader", OMPI_MCA_hwloc_base_binding_policy="none", LC_ALL="C.UTF-8",
           OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_plm_rsh_agent="/bin/false",
           OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_ess_singleton_isolated="1", SST_CORE_NO_ENV="1")


NO_START = re.compile(r"orte_init failed|Unable to start a daemon|orte_ess_init failed|opal_init failed|unable to allocate the "
                      r"requested|Cannot fork|Resource temporarily unavailable")


class Run:
    pass


def sst(args, outdir, model=None, sdl=None, ranks=1, threads=1, timeout=60, env=None, cwd=None, libs=None):
    """One simulator run. Component logs go to outdir. Returns rc, out."""
    os.makedirs(outdir, exist_ok=True)
    e = dict(os.environ, **ENV)
    e["VF_OUT"] = outdir
    if model is not None:
        mf = os.path.join(outdir, "model.json")
        with open(mf, "w") as f:
            json.dump(model, f)
        e["VF_MODEL"] = mf
    e.update(env or {})
    cmd = []
    if ranks > 1:
        cmd += ["mpirun", "-np", str(ranks)]
    cmd += [build.SIM, "--add-lib-path=" + (libs or build.ELEM)]
    if threads > 1:
        cmd += ["-n", str(threads)]
    cmd += list(args) + [sdl or MODEL]
    r = Run()
    r.cmd = cmd
    for attempt in range(4):
        _once(r, cmd, e, cwd or outdir, timeout)
        # the machine could not start the MPI environment: nothing of the simulator has run
        if r.rc == 0 or not NO_START.search(r.out):
            break
        time.sleep(1 + 2 * attempt)
    r.dir = outdir
    m = re.search(r"Simulation is complete, simulated time: ([0-9.]+) (\S+)", r.out)
    r.end = (m.group(1), m.group(2)) if m else None
    return r


def _once(r, cmd, e, cwd, timeout):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=e, text=True,
                         errors="replace", start_new_session=True)
    try:
        r.out, _ = p.communicate(timeout=timeout)
        r.rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        r.out, _ = p.communicate()
        r.rc = "timeout"


def logs(outdir):
    """{component name: [records]} ; lines are in the order the component wrote them."""
    res = {}
    for f in sorted(glob.glob(os.path.join(outdir, "*.log"))):
        who = os.path.basename(f).rsplit(".", 2)[0]
        recs = []
        for ln in open(f):
            try:
                recs.append(json.loads(ln))
            except ValueError:
                recs.append({"x": "garbled", "t": 0})
        res.setdefault(who, []).append(recs)
    return res
