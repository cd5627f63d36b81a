"""Drives harness processes, collects what their monitors observed, and decides."""
import collections
import json
import os
import queue
import re
import select
import shutil
import signal
import subprocess
import tempfile
import threading
import time

import build

VERIF = build.VERIF
FINDINGS = os.path.join(VERIF, "known_findings.txt")
REPLAYS = os.path.join(VERIF, "_work", "replay")
STALL = 150  # seconds without a line from a harness before a case is suspected to hang
STALL_ALONE = 300
IDLE = 45  # seconds without a line and without using any processor time: it waits for what never comes


# Stops at the first read of memory that is not initialised or not owned.
MEMCHECK = ["valgrind", "-q", "--error-exitcode=98", "--exit-on-first-error=yes", "--show-mismatched-frees=no",
            "--leak-check=no", "--fair-sched=try", "--num-callers=24"]


class Harness_error(Exception):
    pass


class Observed:
    """Everything the monitors of one run reported."""

    def __init__(self):
        self.lock = threading.Lock()
        self.violations = []  # (part, case, key, message)
        self.samples = []
        self.cases = 0
        self.sigs = set()
        self.counters = collections.Counter()
        self.sets = collections.defaultdict(set)
        self.inconclusive = []


def _san_env(part, logdir):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=99:detect_leaks=1:allocator_may_return_null=0:max_allocation_size_mb=4096:detect_stack_use_after_return=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:history_size=4:second_deadlock_stack=1"
    env["LC_ALL"] = "C"
    sym = shutil.which("llvm-symbolizer-18") or shutil.which("llvm-symbolizer")
    if sym:
        for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS"):
            env[k] += f":external_symbolizer_path={sym}"
    env.update(part.get("env", {}))
    return env


def _wrap(part):
    return MEMCHECK if part.get("memcheck") else []


def _report_key(text, code):
    """A stable key and a short description of how a harness process died."""
    m = re.search(r"SUMMARY: (\w+): ([^\n]*)", text)
    if m:
        kind = m.group(2).split(" ")[0]
        # Without line numbers, so that the key survives unrelated edits.
        return f"{m.group(1)}:{kind}", _report_excerpt(text, m.group(0))
    m = re.search(r"runtime error: ([^\n]*)", text)
    if m:
        return "UndefinedBehaviorSanitizer", m.group(0)
    m = re.search(r"==\d+== ((?:Conditional jump|Use of uninit|Invalid |Syscall param|Source and dest|Process terminating|Jump to)[^\n]*)", text)
    if m and code == 98:
        frames = re.findall(r"==\d+==    (?:at|by) 0x[0-9A-F]+: ([^\n]*)", text[m.start():])
        return "memcheck:" + "_".join(m.group(1).split()[:3]), m.group(1) + " | " + " <- ".join(f[:120] for f in frames[:6])
    m = re.search(r"(terminate called[^\n]*\n[^\n]*|Assertion[^\n]*)", text)
    if code is not None and code < 0:
        try:
            name = signal.Signals(-code).name
        except ValueError:
            name = str(-code)
        return f"crash:{name}", (m.group(1) if m else "") or text[-300:]
    return f"exit:{code}", text[-300:]


def _report_excerpt(text, summary):
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", text)
    keep = [f for f in frames if "kigumi" in f][:4]
    return summary + " | " + " <- ".join(f[:160] for f in keep)


def _cpu_of_group(pgid):
    """Processor time that the processes of a harness have used so far, in ticks."""
    total = 0
    for d in os.listdir("/proc"):
        if not d.isdigit():
            continue
        try:
            if os.getpgid(int(d)) != pgid:
                continue
            with open(f"/proc/{d}/stat") as f:
                t = f.read().rsplit(")", 1)[1].split()
            total += sum(int(x) for x in t[11:15])
        except OSError:
            continue
    return total


class _Idle:
    def __init__(self, pgid):
        self.pgid, self.cpu, self.since, self.next = pgid, -1, time.time(), 0.0

    def reset(self):
        self.cpu, self.since, self.next = -1, time.time(), 0.0

    def expired(self):
        now = time.time()
        if now - self.since < IDLE / 3 or now < self.next:
            return False
        self.next = now + 5
        cpu = _cpu_of_group(self.pgid)
        if cpu != self.cpu:
            self.cpu, self.since = cpu, now - IDLE / 3
            return False
        return now - self.since > IDLE


def _run_chunk(exe, part, prop, seed, tier, lo, hi, obs, stop, workdir):
    cur = lo
    while cur < hi and not stop.is_set():
        errf = tempfile.TemporaryFile(dir=workdir)
        cwd = tempfile.mkdtemp(prefix="w.", dir=workdir)
        p = subprocess.Popen(_wrap(part) + [exe, part["prop"], str(seed), str(cur), str(hi), tier] + part.get("args", []),
                             stdout=subprocess.PIPE, stderr=errf, cwd=cwd,
                             env=_san_env(part, workdir), start_new_session=True)
        last, finished, stalled, ended = None, False, False, None
        buf = b""
        fd = p.stdout.fileno()
        os.set_blocking(fd, False)
        deadline = time.time() + part.get("stall", STALL)
        idle = _Idle(p.pid)
        while True:
            r, _, _ = select.select([fd], [], [], 1.0)
            if r:
                data = os.read(fd, 1 << 16)
                if not data:
                    break
                deadline = time.time() + part.get("stall", STALL)
                idle.reset()
                buf += data
                *lines, buf = buf.split(b"\n")
                for line in lines:
                    t = line.decode("utf-8", "replace")
                    if t.startswith("B "):
                        last = int(t[2:])
                        ended = None
                    elif t == "D":
                        finished = True
                    else:
                        if t.startswith("E "):
                            ended = int(t.split(" ")[1])
                        _take(t, part, obs)
            elif time.time() > deadline or idle.expired():
                stalled = True
                break
            if stop.is_set():
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        code = p.wait()
        p.stdout.close()
        errf.seek(0)
        err = errf.read().decode("utf-8", "replace")
        errf.close()
        shutil.rmtree(cwd, ignore_errors=True)
        if stop.is_set():
            return
        if finished:
            leak = "LeakSanitizer" in err
            if leak and code != 0:
                key, what = _report_key(err, code)
                with obs.lock:
                    obs.violations.append((part, last, key, what))
            return
        if last is None:
            raise Harness_error(f"{exe} {part['prop']} ended with {code} before its first case: {err[-2000:]}")
        if stalled:
            if _hangs_alone(exe, part, seed, tier, last, workdir):
                with obs.lock:
                    obs.violations.append((part, last, "hang", f"case {last} does not end"))
                # Waiting for more of them would take all the time there is.
                stop.set()
            else:
                with obs.lock:
                    obs.inconclusive.append(last)
        else:
            key, what = _report_key(err, code)
            with obs.lock:
                obs.violations.append((part, last, key, what))
        with obs.lock:
            if ended != last:
                obs.cases += 1
            if len(obs.violations) >= 40:
                stop.set()
        cur = last + 1


def _hangs_alone(exe, part, seed, tier, case, workdir):
    p = subprocess.Popen(_wrap(part) + [exe, part["prop"], str(seed), str(case), str(case + 1), tier] + part.get("args", []),
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=workdir,
                         env=_san_env(part, workdir), start_new_session=True)
    deadline = time.time() + STALL_ALONE
    idle = _Idle(p.pid)
    try:
        while p.poll() is None:
            if time.time() > deadline or idle.expired():
                return True
            time.sleep(0.2)
        return False
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()


def _take(t, part, obs):
    k = t[:2]
    with obs.lock:
        if k == "V ":
            _, case, key, msg = (t.split(" ", 3) + [""])[:4]
            if "only" in part and key != "generator" and not re.match(part["only"], key):
                obs.counters["judged_by_other_checks"] += 1
                return
            obs.violations.append((part, int(case), key, msg))
        elif k == "S ":
            _, case, text = t.split(" ", 2)
            if len(obs.samples) < 12:
                obs.samples.append({"part": part["name"], "case": int(case), "text": text[:700]})
        elif k == "E ":
            _, case, sig, nt = t.split(" ")
            obs.cases += 1
            if nt == "1":
                obs.sigs.add((part["name"], sig))
        elif k == "C ":
            _, name, n = t.split(" ")
            obs.counters[name] += int(n)
        elif k == "X ":
            _, name, v = t.split(" ")
            obs.sets[name].add(v)


def _findings(prop):
    """Lines `known: property=<id> match=<regular expression> :: <what fails>`."""
    res = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)$", line.rstrip("\n"))
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


def run_check(prop, spec, seed, tier):
    t0 = time.time()
    exes, build_s = build.build_all(spec["build"])
    os.makedirs(os.path.join(VERIF, "_work"), exist_ok=True)
    workdir = tempfile.mkdtemp(prefix=f"{prop}.", dir=os.path.join(VERIF, "_work"))
    os.environ["TMPDIR"] = workdir
    for n, e in exes.items():
        os.environ["VERIF_BIN_" + n.upper()] = e
    os.environ["VERIF_GOLDEN"] = os.path.join(VERIF, "golden")
    obs = Observed()
    stop = threading.Event()
    errors = []
    try:
        todo = queue.Queue()
        jobs = []
        for part in spec["parts"]:
            n = part[tier]
            workers = part.get("workers", 8)
            chunk = max(1, min(part.get("chunk", 10**9), -(-n // (workers * 4))))
            for lo in range(0, n, chunk):
                jobs.append((part, lo, min(n, lo + chunk)))
        for j in jobs:
            todo.put(j)

        def work():
            while not stop.is_set():
                try:
                    part, lo, hi = todo.get_nowait()
                except queue.Empty:
                    return
                try:
                    _run_chunk(exes[part["bin"]], part, prop, seed, tier, lo, hi, obs, stop, workdir)
                except Exception as e:  # noqa: BLE001
                    errors.append(e)
                    stop.set()

        threads = [threading.Thread(target=work) for _ in range(spec.get("workers", 8))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    if errors:
        raise Harness_error(f"{type(errors[0]).__name__}: {errors[0]}")

    generator = [v for v in obs.violations if v[2] == "generator"]
    violations = [v for v in obs.violations if v[2] != "generator"]
    known = _findings(prop)
    unlisted, hit = [], collections.Counter()
    for v in violations:
        text = f"{v[2]} {v[3]}"
        for i, (rx, _) in enumerate(known):
            if rx.search(text):
                hit[i] += 1
                break
        else:
            unlisted.append(v)
    for i, (_, what) in enumerate(known):
        print(f"KNOWN-FINDING: property={prop} {what} (observed {hit[i]} times in this run)")

    sets = {k: len(v) for k, v in sorted(obs.sets.items())}
    _evidence(prop, spec, seed, tier, obs, sets, build_s, time.time() - t0, unlisted)

    if unlisted:
        unlisted.sort(key=lambda v: (v[0]["name"], v[1]))
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{prop}.json")
        with open(path, "w") as f:
            json.dump([{"property": prop, "bin": p["bin"], "prop": p["prop"], "args": p.get("args", []), "env": p.get("env", {}),
                        "memcheck": p.get("memcheck", False), "seed": seed, "tier": tier, "case": c, "key": k, "message": m} for p, c, k, m in unlisted[:20]], f, indent=1)
        keys = collections.Counter(v[2] for v in unlisted)
        print(f"{len(unlisted)} violations: {dict(keys)}")
        for p, c, k, m in unlisted[:3]:
            print(f"  case {c} of {p['name']}: {k}: {m[:600]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if generator:
        raise Harness_error(f"generator: {generator[0][3][:1500]}")
    problems = []
    for name, least in spec.get("require", {}).get(tier, spec.get("require", {}).get("quick", {})).items():
        got = obs.counters.get(name, 0) + sets.get(name, 0)
        if got < least:
            problems.append(f"{name}: observed {got}, need {least}")
    if obs.cases == 0 or not obs.sigs:
        problems.append("nothing was observed")
    if len(obs.inconclusive) > max(2, obs.cases // 50):
        problems.append(f"{len(obs.inconclusive)} inconclusive cases")
    if problems:
        raise Harness_error("inconclusive: " + "; ".join(problems))
    print(f"{prop}: held on {obs.cases} executions ({len(obs.sigs)} distinct and non-trivial), seed {seed}, {tier}, "
          f"build {build_s:.0f} s, total {time.time() - t0:.0f} s")
    return 0


def _evidence(prop, spec, seed, tier, obs, sets, build_s, wall, unlisted):
    cov = {
        "evaluations": obs.cases,
        "distinct_nontrivial": len(obs.sigs),
        "rule": spec["rule"],
        "samples": obs.samples or ["none"],
        "observed": dict(sorted(obs.counters.items())),
        "distinct_observed": sets,
        "inconclusive": len(obs.inconclusive),
        "build_s": round(build_s, 1),
    }
    doc = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": cov,
           "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(unlisted)}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, f"{prop}.json"))


def replay(path):
    code = 0
    for r in json.load(open(path))[:1]:
        exes, _ = build.build_all([r["bin"]])
        for n, e in exes.items():
            os.environ["VERIF_BIN_" + n.upper()] = e
        os.environ["VERIF_GOLDEN"] = os.path.join(VERIF, "golden")
        cmd = _wrap(r) + [exes[r["bin"]], r["prop"], str(r["seed"]), str(r["case"]), str(r["case"] + 1), r["tier"]] + r["args"] + ["verbose"]
        print(" ".join(cmd))
        p = subprocess.run(cmd, env=_san_env({"env": r["env"]}, "/tmp"))
        code = code or p.returncode
    return code
