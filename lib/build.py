"""Builds sst-core (simulator binary only) and the verification element library
from /repo's current working tree, by content: an object is reused only if every
file it was compiled from has the content it had when the object was made."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
CORE = os.path.join(BUILD, "core")
ELEM = os.path.join(BUILD, "elem")
BASE = os.path.join(VERIF, "lib", "base_hashes.json")
SIM = os.path.join(CORE, "_build/src/sst/core/sstsim.x")
INFO = os.path.join(CORE, "_build/src/sst/core/sstinfo.x")
NOAUTO = ["AUTOMAKE=:", "AUTOCONF=:", "ACLOCAL=:", "AUTOHEADER=:", "MAKEINFO=:"]


class BuildError(Exception):
    pass


def log(*a):
    print("[build]", *a, file=sys.stderr, flush=True)


def hash_sources(repo=None):
    repo = repo or REPO
    out = {}
    for top in ("src", "external"):
        for d, dirs, files in os.walk(os.path.join(repo, top)):
            dirs[:] = [x for x in dirs if x not in ("testElements", "testingframework", ".deps", ".libs")]
            for f in files:
                if f.endswith((".cc", ".h", ".c", ".hpp", ".inc", ".tcc", ".ipp")):
                    p = os.path.join(d, f)
                    with open(p, "rb") as fh:
                        out[os.path.relpath(p, repo)] = hashlib.sha256(fh.read()).hexdigest()
    return out


def _po_deps(po, objdir):
    """Files (relative to the repo root) an object depends on, from its .Po file."""
    try:
        txt = open(po, errors="replace").read()
    except OSError:
        return None
    if not re.search(r"\.o\s*:", txt):
        return None
    deps = set()
    for m in re.finditer(r"(?:^|\s)((?:\.\./)+)(\S+?)(?=[\s:\\]|$)", txt):
        deps.add(m.group(2))
    return deps


def _stale_objects(bcore, changed):
    stale = []
    for d, dirs, files in os.walk(bcore):
        for f in files:
            if not f.endswith(".o"):
                continue
            po = os.path.join(d, ".deps", f[:-2] + ".Po")
            deps = _po_deps(po, d)
            rel = os.path.relpath(os.path.join(d, f[:-2]), os.path.join(CORE, "_build"))
            own = {rel + ".cc", rel + ".c"}
            if deps is None:
                if changed:
                    stale.append(os.path.join(d, f))
            elif (deps & changed) or (own & changed):
                stale.append(os.path.join(d, f))
    return stale


def _link_tree():
    os.makedirs(CORE, exist_ok=True)
    for n in os.listdir(REPO):
        if n in ("_build", "_install", ".git"):
            continue
        dst = os.path.join(CORE, n)
        if not os.path.lexists(dst):
            os.symlink(os.path.join(REPO, n), dst)


def _touch_all(top):
    t = time.time() + 1
    for d, dirs, files in os.walk(top):
        for f in files:
            p = os.path.join(d, f)
            if not os.path.islink(p):
                try:
                    os.utime(p, (t, t))
                except OSError:
                    pass


def ensure_core(targets=("sstsim.x",)):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _ensure_core(targets)


def _ensure_core(targets):
    t0 = time.time()
    bb = os.path.join(CORE, "_build")
    bcore = os.path.join(bb, "src/sst/core")
    hf = os.path.join(CORE, "hashes.json")
    cur = hash_sources()
    fresh = False
    if not os.path.exists(hf):
        shutil.rmtree(CORE, ignore_errors=True)
        _link_tree()
        src = os.path.join(REPO, "_build")
        if os.path.exists(os.path.join(src, "config.status")) and os.path.exists(
                os.path.join(src, "src/sst/core/main.o")):
            shutil.copytree(src, bb, symlinks=True, ignore=shutil.ignore_patterns("test-results", "install.log"))
            old = json.load(open(BASE))
        else:
            log("no build tree in the repository; configuring")
            os.makedirs(bb)
            r = subprocess.run(["../configure", "--prefix=" + os.path.join(CORE, "inst"), "CC=gcc", "CXX=g++",
                                "LDFLAGS=-Wl,--no-as-needed"], cwd=bb, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError("configure failed\n" + r.stdout[-3000:])
            old = {}
        fresh = True
    else:
        old = json.load(open(hf))
    changed = {f for f in set(old) | set(cur) if old.get(f) != cur.get(f)}
    if changed:
        if os.path.exists(hf):
            os.unlink(hf)          # an interrupted build must not look finished
        for o in _stale_objects(bcore, changed):
            os.unlink(o)
        log("%d changed source files" % len(changed))
    _touch_all(bb)
    if any(f not in old and f.endswith(".cc") for f in changed):
        # a new source file may need the makefiles to be generated again
        pass
    for extra in targets:
        x = os.path.join(bcore, extra)
        if changed and os.path.exists(x):
            os.unlink(x)
    r = subprocess.run(["make", "-C", bcore, "-j%d" % (os.cpu_count() or 4), "CXXFLAGS=-O0 -g0", *NOAUTO, *targets],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, LC_ALL="C.UTF-8"))
    if r.returncode:
        raise BuildError("core build failed\n" + r.stdout[-4000:])
    with open(hf + ".tmp", "w") as f:
        json.dump(cur, f)
    os.rename(hf + ".tmp", hf)
    key = hashlib.sha256(json.dumps(cur, sort_keys=True).encode()).hexdigest()
    log("core ready in %.1fs" % (time.time() - t0))
    return key


def make_vars(*names):
    mk = os.path.join(CORE, "_build/src/sst/core/Makefile")
    txt = open(mk).read()
    out = []
    for n in names:
        m = re.search(r"^%s = (.*?)$" % n, txt, re.M)
        out.append(m.group(1).strip() if m else "")
    return out


def cxxflags():
    mpi, py = make_vars("MPI_CPPFLAGS", "PYTHON_CPPFLAGS")
    return ["-std=c++17", "-fexcess-precision=fast", "-O0", "-g0", "-fPIC", "-DHAVE_CONFIG_H",
            "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "external"),
            "-I" + os.path.join(CORE, "_build/src"), "-I" + os.path.join(VERIF, "elements"), "-I" + os.path.join(CORE, "_build/src/sst/core"),
            *mpi.split(), *py.split()]


def compile_cached(src, out, key, extra=(), shared=False, link=()):
    """Compile one harness file unless the result for (source, core key, flags) exists."""
    os.makedirs(os.path.dirname(out), exist_ok=True)
    h = hashlib.sha256()
    h.update(key.encode())
    for s in ([src] if isinstance(src, str) else src):
        h.update(open(s, "rb").read())
    for inc in sorted(glob.glob(os.path.join(VERIF, "elements", "*.h")) + glob.glob(os.path.join(VERIF, "harness", "*.h"))):
        h.update(open(inc, "rb").read())
    h.update(repr((extra, shared, link)).encode())
    stamp = out + ".key"
    k = h.hexdigest()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == k:
        return out
    srcs = [src] if isinstance(src, str) else list(src)
    cmd = ["g++", *cxxflags(), *extra, *(["-shared"] if shared else []), *srcs, "-o", out, *link]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("harness build failed: %s\n%s" % (srcs, r.stdout[-4000:]))
    open(stamp, "w").write(k)
    return out


def elements(key, *names):
    """Element libraries lib<name>.so from /verif/elements/<name>.cc, compiled in parallel."""
    from concurrent.futures import ThreadPoolExecutor
    with open(os.path.join(BUILD, ".elock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda n: compile_cached(os.path.join(VERIF, "elements", n + ".cc"),
                                                 os.path.join(ELEM, "lib%s.so" % n), key, shared=True), names))


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--base":
        json.dump(hash_sources(), open(BASE, "w"), indent=0, sort_keys=True)
        print(len(json.load(open(BASE))))
    else:
        print(ensure_core())
