"""Builds the harnesses from /repo's current working tree, into /verif/_build (not committed)."""
import hashlib
import os
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "_build")


class Build_error(Exception):
    pass


CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
BASE = [
    "-std=c++20", "-w",
    "-DBOOST_CONTAINER_DYN_LINK", "-DBOOST_CONTAINER_NO_LIB", "-DCGAL_USE_GMPXX=1",
    f"-I{REPO}/include", "-isystem", f"{VERIF}/shim", "-include", f"{VERIF}/shim/cgal6_compat.h",
    f"-I{VERIF}/harness",
]
BOOST_NT = ["-DCMAKE_OVERRIDDEN_DEFAULT_ENT_BACKEND=3"]
GMPXX_NT = ["-DCMAKE_OVERRIDDEN_DEFAULT_ENT_BACKEND=1"]
FAST = ["-O2", "-g1", "-DNDEBUG"]
ASAN = ["-DVERIF_SANITIZER", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
# Containers check their preconditions, and that iterators are valid when they are used.
CHECKED = ["-D_GLIBCXX_DEBUG", "-D_GLIBCXX_SANITIZE_VECTOR"]
TSAN = ["-DVERIF_SANITIZER", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"]
# Valgrind does not honour rounding modes, so interval arithmetic must not depend on them.
MEMCHECK = ["-O1", "-g1", "-DNDEBUG", "-DCGAL_ALWAYS_ROUND_TO_NEAREST"]
LIBS = ["-lboost_container", "-lgmpxx", "-lmpfr", "-lgmp", "-lpthread"]

# name -> (list of sources, flags, libraries)
TARGETS = {
    "core": (["harness/core.cc"], FAST + GMPXX_NT, LIBS),
    "runs": (["harness/runs.cc"], FAST + GMPXX_NT, LIBS + ["-ldl"]),
    "race": (["harness/race.cc"], TSAN + GMPXX_NT, LIBS + ["-ldl"]),
    "loops": (["harness/prim.cc"], FAST + GMPXX_NT + ["-DPRIM=15"], LIBS + ["-ldl"]),
    "search": (["harness/prim.cc"], FAST + GMPXX_NT + ["-DPRIM=16"], LIBS + ["-ldl"]),
    "triangles": (["harness/prim.cc"], FAST + GMPXX_NT + ["-DPRIM=17"], LIBS + ["-ldl"]),
    "adjacency": (["harness/prim.cc"], FAST + GMPXX_NT + ["-DPRIM=23"], LIBS + ["-ldl"]),
    "faults": (["harness/faults.cc"], FAST + GMPXX_NT, LIBS + ["-ldl"]),
    "io": (["harness/io.cc"], FAST + GMPXX_NT + ["-DVERIF_WITH_OPERATIONS"], LIBS),
    "io_boost": (["harness/io.cc"], FAST + BOOST_NT, LIBS),
    "io_asan": (["harness/io.cc"], ASAN + CHECKED + GMPXX_NT, LIBS),
    "defects": (["harness/defects.cc"], FAST + GMPXX_NT, LIBS),
    "mem1": (["harness/mem.cc"], ASAN + CHECKED + GMPXX_NT + ["-DMEM_PART=1"], LIBS + ["-ldl"]),
    "mem2": (["harness/mem.cc"], ASAN + CHECKED + GMPXX_NT + ["-DMEM_PART=2"], LIBS + ["-ldl"]),
    "vg1": (["harness/mem.cc"], MEMCHECK + GMPXX_NT + ["-DMEM_PART=1"], LIBS + ["-ldl"]),
    "vg2": (["harness/mem.cc"], MEMCHECK + GMPXX_NT + ["-DMEM_PART=2"], LIBS + ["-ldl"]),
    "vg_io": (["harness/io.cc"], MEMCHECK + BOOST_NT, LIBS),
    "cli": (["harness/cli.cc"], FAST + GMPXX_NT + ["-DVERIF_WITH_OPERATIONS"], LIBS),
}


def _program(flags):
    return ([f"{REPO}/cli/{f}.cc" for f in ("main", "boolean_command", "convert_command", "defects_command")],
            flags, LIBS + ["-lboost_program_options"])


TARGETS["kigumi"] = _program(FAST + GMPXX_NT)
TARGETS["kigumi_asan"] = _program(ASAN + ["-D_GLIBCXX_ASSERTIONS"] + GMPXX_NT)


def _inputs():
    roots = [os.path.join(REPO, "include"), os.path.join(REPO, "cli"),
             os.path.join(VERIF, "harness"), os.path.join(VERIF, "shim"), os.path.abspath(__file__)]
    files = []
    for r in roots:
        if os.path.isfile(r):
            files.append(r)
        for d, dirs, fs in os.walk(r):
            dirs.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    return files


def _digest(extra):
    h = hashlib.sha256()
    for f in _inputs():
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def _start(name, digest):
    sources, flags, libs = TARGETS[name]
    d = os.path.join(OUT, name)
    exe = os.path.join(d, "bin")
    stamp = os.path.join(d, "stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == digest:
        return exe, None
    os.makedirs(d, exist_ok=True)
    if os.path.exists(stamp):
        os.remove(stamp)
    tmp = tempfile.mkdtemp(prefix="obj.", dir=d)
    jobs = []
    for i, s in enumerate(sources):
        src = s if os.path.isabs(s) else os.path.join(VERIF, s)
        obj = os.path.join(tmp, f"{i}.o")
        log = open(os.path.join(tmp, f"{i}.log"), "w")
        cmd = [CXX] + BASE + flags + ["-c", src, "-o", obj]
        jobs.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT), obj, log.name, cmd))
    return exe, (jobs, tmp, flags, libs, stamp, digest)


def _finish(name, exe, work):
    if work is None:
        return exe
    jobs, tmp, flags, libs, stamp, digest = work
    try:
        for p, obj, log, cmd in jobs:
            if p.wait() != 0:
                tail = open(log).read()[:3000]
                raise Build_error(f"building {name} failed: {' '.join(cmd)}\n{tail}")
        san = [f for f in flags if f.startswith("-fsanitize")]
        cmd = [CXX] + san + [j[1] for j in jobs] + ["-o", exe + ".tmp"] + libs
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise Build_error(f"linking {name} failed: {' '.join(cmd)}\n{r.stderr[:3000]}")
        os.replace(exe + ".tmp", exe)
        with open(stamp, "w") as f:
            f.write(digest)
    finally:
        for p, *_ in jobs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def build_all(names):
    """Builds the named targets, returns {name: path of the executable} and the seconds it took."""
    t0 = time.time()
    res = {}
    names = list(names)
    # A few at a time: a compiler needs up to 3 GB here.
    width = 4
    pending = names[:]
    running = []
    try:
        while pending or running:
            while pending and len(running) < width:
                n = pending.pop(0)
                exe, work = _start(n, _digest((n, TARGETS[n], CXX, BASE)))
                running.append((n, exe, work))
            n, exe, work = running.pop(0)
            res[n] = _finish(n, exe, work)
    finally:
        for n, exe, work in running:
            if work:
                for p, *_ in work[0]:
                    p.kill()
                shutil.rmtree(work[1], ignore_errors=True)
    return res, time.time() - t0
