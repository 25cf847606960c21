"""Builds the simulators from /repo's current working tree.  Output: /verif/build/<content hash>/ (ignored by git)."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, sysconfig
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("QDD_REPO", "/repo")
BUILD = os.path.join(V, "build")
SIM = os.path.join(V, "sim")
EIGEN = "/usr/include/eigen3"


class BuildError(Exception):
    pass


def _files(dirs):
    out = []
    for d in dirs:
        if os.path.isfile(d):
            out.append(d)
            continue
        for r, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("__pycache__", "build"))
            for f in sorted(fs):
                if f.endswith((".cpp", ".hpp", ".h", ".py", ".txt", ".map", ".list")):
                    out.append(os.path.join(r, f))
    return out


def content_key(dirs, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in _files(dirs):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def run(cmd, cwd=None):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, text=True)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


SIZES = {
    # tiny tables: collisions, evictions, chunk growth and collections are frequent
    "tiny": "-DQDD_SIM -DQDD_SIM_NQUBITS=100 -DQDD_SIM_NBUCKETS=61 -DQDD_SIM_ALLOC=8 -DQDD_SIM_ALLOC_CACHE=4",
    # medium tables: few collisions, everything reachable again
    "mid": "-DQDD_SIM -DQDD_SIM_NQUBITS=100 -DQDD_SIM_NBUCKETS=1021 -DQDD_SIM_ALLOC=64 -DQDD_SIM_ALLOC_CACHE=128",
}
BASE = "-std=c++17 -g -w -I%s/include -I%s" % (REPO, EIGEN)


def parallel(jobs):
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda c: run(c.split() if isinstance(c, str) else c), jobs))


# ---- targets: name -> (dependency dirs, function(outdir)) -------------------------------------------------
def t_eng(out, size="tiny"):
    f = "%s -O1 -DNDEBUG -DEIGEN_DONT_VECTORIZE %s" % (BASE, SIZES[size])
    objs = {"dd": REPO + "/src/dd.cpp", "eng": SIM + "/eng_sim.cpp", "core": SIM + "/simcore.cpp", "arena": SIM + "/arena.cpp"}
    parallel("g++ %s -c %s -o %s/%s.o" % (f, s, out, o) for o, s in objs.items())
    run(("g++ -no-pie %s -o %s/eng_sim" % (" ".join("%s/%s.o" % (out, o) for o in objs), out)).split())


def t_mpi(out):
    inc = "-std=c++17 -g -w -I%s/stub -I%s/include -I%s -I%s" % (SIM, REPO, EIGEN, SIM)
    f = inc + " -O1 -DNDEBUG -DEIGEN_DONT_VECTORIZE -DisMPI %s" % SIZES["tiny"]
    pic = f + " -fPIC -fno-gnu-unique -fno-semantic-interposition"
    parallel(["g++ %s -c %s/src/dd.cpp -o %s/dd.o" % (pic, REPO, out), "g++ %s -c %s/rank_glue.cpp -o %s/glue.o" % (pic, SIM, out),
              "g++ %s -c %s/mpi_sim.cpp -o %s/mpi.o" % (f, SIM, out), "g++ %s -c %s/disk_sim.cpp -o %s/disk.o" % (f, SIM, out), "g++ %s -c %s/simcore.cpp -o %s/core.o" % (f, SIM, out), "g++ %s -c %s/arena.cpp -o %s/arena.o" % (f, SIM, out)])
    run(("g++ -shared -Wl,-Bsymbolic %s/dd.o %s/glue.o -o %s/libeng0.so -lboost_serialization" % (out, out, out)).split())
    for i in range(1, 8):
        shutil.copy(out + "/libeng0.so", out + "/libeng%d.so" % i)
    run(("g++ -no-pie -rdynamic %s/disk.o %s/core.o %s/arena.o -o %s/disk_sim -ldl -lboost_serialization" % (out, out, out, out)).split())
    run(("g++ -no-pie -rdynamic %s/mpi.o %s/core.o %s/arena.o -o %s/mpi_sim -ldl -lboost_serialization" % (out, out, out, out)).split())


def t_mt(out):
    # the engine, task.cpp and the driver are compiled for -fsanitize=thread but linked with our own runtime (mtrt.cpp)
    f = "%s -O1 -DNDEBUG -DEIGEN_DONT_VECTORIZE -I%s -fsanitize=thread" % (BASE, SIM)
    d = f + " -DisMT -DQDD_SIM -DQDD_SIM_NQUBITS=16 -DQDD_SIM_NBUCKETS=13 -DQDD_SIM_ALLOC=8 -DQDD_SIM_ALLOC_CACHE=4"
    parallel(["g++ %s -c %s/src/dd.cpp -o %s/dd.o" % (d, REPO, out), "g++ %s -c %s/src/task.cpp -o %s/task.o" % (d, REPO, out),
              "g++ %s -c %s/mt_sim.cpp -o %s/mt.o" % (d, SIM, out),
              "g++ -std=c++17 -O2 -g -w -c %s/mtrt.cpp -o %s/rt.o" % (SIM, out), "g++ -std=c++17 -O1 -g -w -c %s/simcore.cpp -o %s/core.o" % (SIM, out)])
    run(("g++ -no-pie -rdynamic %s/dd.o %s/task.o %s/mt.o %s/rt.o %s/core.o -o %s/mt_sim -lboost_fiber -lboost_context -ltbb -ldl -lpthread" % ((out,) * 6)).split())


def t_conc(out):
    # the lock-free components, instrumented the same way
    f = "%s -O1 -DNDEBUG -I%s -fsanitize=thread" % (BASE, SIM)
    parallel(["g++ %s -c %s/src/epoch.cpp -o %s/epoch.o" % (f, REPO, out), "g++ %s -c %s/conc_sim.cpp -o %s/conc.o" % (f, SIM, out),
              "g++ -std=c++17 -O2 -g -w -c %s/mtrt.cpp -o %s/rt.o" % (SIM, out), "g++ -std=c++17 -O1 -g -w -c %s/simcore.cpp -o %s/core.o" % (SIM, out)])
    run(("g++ -no-pie -rdynamic %s/epoch.o %s/conc.o %s/rt.o %s/core.o -o %s/conc_sim -lboost_fiber -lboost_context -ltbb -ldl -lpthread" % ((out,) * 5)).split())


PYTHON = "/opt/vp/venv/bin/python"
PYBIND = "/opt/vp/deps/pybind11-2.10.3/pybind11/include"


def pyinc():
    return run([PYTHON, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"]).strip()


def t_py(out):
    # the Python extension in its two single-process configurations, loaded under the name qdd.pyQDD by sim/py/proc.py
    f = "%s -O1 -DNDEBUG -DEIGEN_DONT_VECTORIZE -fPIC -fvisibility=hidden -I%s -I%s %s" % (BASE, PYBIND, pyinc(), SIZES["tiny"])
    m = "-I%s/stub_mt %s -DisMT" % (SIM, f)
    d = "-I%s/stub %s -DisMPI" % (SIM, f)
    os.makedirs(out + "/st")
    os.makedirs(out + "/mt")
    os.makedirs(out + "/mpi")
    parallel(["g++ %s -c %s/src/dd.cpp -o %s/st/dd.o" % (f, REPO, out), "g++ %s -c %s/qdd/bindings.cpp -o %s/st/b.o" % (f, REPO, out),
              "g++ %s -c %s/src/dd.cpp -o %s/mpi/dd.o" % (d, REPO, out), "g++ %s -c %s/qdd/bindings.cpp -o %s/mpi/b.o" % (d, REPO, out),
              "g++ -std=c++17 -O1 -g -w -fPIC -c %s/py/rpchub.cpp -o %s/mpi/hub.o" % (SIM, out),
              "g++ %s -c %s/src/dd.cpp -o %s/mt/dd.o" % (m, REPO, out), "g++ %s -c %s/qdd/bindings.cpp -o %s/mt/b.o" % (m, REPO, out),
              "g++ -std=c++17 -O2 -g -w -fPIC -c %s/py/seam.cpp -o %s/seam.o" % (SIM, out), "g++ -std=c++17 -O2 -g -w -fPIC -c %s/arena.cpp -o %s/arena.o" % (SIM, out)])
    run(("g++ -shared %s/seam.o %s/arena.o -o %s/libseam.so" % (out, out, out)).split())
    run(("g++ -shared %s/mpi/dd.o %s/mpi/b.o %s/mpi/hub.o -o %s/mpi/pyQDD.so -lboost_serialization" % (out, out, out, out)).split())
    for v, l in (("st", ""), ("mt", " -lboost_fiber -lboost_context -ltbb -lpthread")):
        run(("g++ -shared %s/%s/dd.o %s/%s/b.o -o %s/%s/pyQDD.so%s" % (out, v, out, v, out, v, l)).split())


TARGETS = {
    "py": ([REPO + "/src", REPO + "/include", REPO + "/qdd/bindings.cpp", SIM + "/py/seam.cpp", SIM + "/py/rpchub.cpp", SIM + "/stub", SIM + "/arena.cpp", SIM + "/arena.hpp", SIM + "/stub_mt"], t_py),
    "conc": ([REPO + "/src", REPO + "/include", SIM + "/conc_sim.cpp", SIM + "/mtrt.cpp", SIM + "/mtrt.hpp", SIM + "/simcore.cpp", SIM + "/simcore.hpp"], t_conc),
    "mt": ([REPO + "/src", REPO + "/include", SIM], t_mt),
    "mpi": ([REPO + "/src", REPO + "/include", SIM], t_mpi),
    "eng": ([REPO + "/src", REPO + "/include", SIM], t_eng),
    "eng_mid": ([REPO + "/src", REPO + "/include", SIM], lambda o: t_eng(o, "mid")),
}


def build(target):
    """Returns the directory holding the target's outputs."""
    dirs, fn = TARGETS[target]
    key = content_key(dirs + [os.path.join(V, "buildlib.py")], target)
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, target + "-" + key)
    with open(os.path.join(BUILD, ".lock-" + target), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, ".ok")):
            return out
        for old in glob.glob(os.path.join(BUILD, target + "-*")):
            if old != out:
                shutil.rmtree(old, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        fn(out)
        open(os.path.join(out, ".ok"), "w").close()
    return out


if __name__ == "__main__":
    for t in sys.argv[1:] or TARGETS:
        print(t, build(t), flush=True)
