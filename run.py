#!/usr/bin/env python3
"""Decides one property: builds /repo's working tree with the monitors, runs the workloads, writes the evidence.

usage: run.py P01 [--tier quick|thorough] [--repo DIR] [--replay FILE]

exit 0: held on everything explored; exit 1 and "VIOLATION property=<id> replay=<path>": broken;
exit 2: the check itself could not run.
"""
import argparse, fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plan import PLAN, ASSUMPTIONS

VARIANTS = {
    "plain": ["-O1", "-g", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
             "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g", "-fsanitize=thread"],
}
BUILD_OF = {"vg": "plain"}
WRAP = {"vg": ["valgrind", "-q", "--error-exitcode=79", "--exit-on-first-error=no", "--fair-sched=yes", "--leak-check=no", "--num-callers=20", "--max-stackframe=8000000"]}
SAN_ENV = {
    "plain": {"VM_MEMORY_MB": "6000"},
    "vg": {},
    "asan": {"ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=1:detect_stack_use_after_return=1:check_initialization_order=1:detect_invalid_pointer_pairs=0:hard_rss_limit_mb=8000",
             "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77", "LSAN_OPTIONS": "exitcode=78"},
    "tsan": {"TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:report_thread_leaks=0:hard_rss_limit_mb=8000"},
}


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def build(variant, repo, jobs):
    """Compiles the library and the harness; objects are reused only when nothing they can depend on has changed."""
    flags = VARIANTS[variant]
    bdir = os.path.join(HERE, "build", variant)
    os.makedirs(bdir, exist_ok=True)
    inc = ["-I%s/include" % repo, "-I%s/src" % repo, "-I%s/external" % repo, "-I%s" % repo]
    base = ["g++", "-std=c++20", "-w", "-fno-access-control"] + flags + inc
    libsrc = sorted(glob.glob(repo + "/src/**/*.cpp", recursive=True))
    repo_hdr = [p for pat in ("/include/**/*.h", "/include/**/*.cc", "/src/**/*.h", "/src/**/*.cc", "/src/**/*.hpp", "/include/**/*.hpp")
                for p in glob.glob(repo + pat, recursive=True)]
    har = sorted(glob.glob(HERE + "/harness/*.cpp"))
    har_hdr = glob.glob(HERE + "/harness/*.h")
    if not libsrc:
        raise CheckError("no library sources under %s/src" % repo)
    todo, objs = [], []
    for src in libsrc + har:
        ours = src.startswith(HERE)
        key = digest([src] + repo_hdr + (har_hdr if ours else []), " ".join(base))
        stem = os.path.relpath(src, HERE if ours else repo).replace("/", "_")[:-4]
        obj = os.path.join(bdir, stem + "." + key + ".o")
        objs.append(obj)
        if not os.path.exists(obj):
            for old in glob.glob(os.path.join(bdir, stem + ".????????????????????????.o")):
                os.unlink(old)
            todo.append((src, obj, base + (["-I%s/harness" % HERE] if ours else [])))

    def one(t):
        src, obj, cmd = t
        r = sh(cmd + ["-c", src, "-o", obj + ".tmp"])
        if r.returncode:
            return "%s\n%s" % (src, r.stdout[-6000:])
        os.rename(obj + ".tmp", obj)
        return None

    todo.sort(key=lambda t: -os.path.getsize(t[0]))
    with ThreadPoolExecutor(jobs) as ex:
        errs = [e for e in ex.map(one, todo) if e]
    if errs:
        raise CheckError("build failed (%s):\n%s" % (variant, "\n".join(errs)))
    exe = os.path.join(bdir, "vm." + hashlib.sha256(" ".join(objs).encode()).hexdigest()[:24])
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(bdir, "vm.*")):
            os.unlink(old)
        r = sh(["g++"] + flags + objs + ["-o", exe + ".tmp", "-lpthread", "-ldl"])
        if r.returncode:
            raise CheckError("link failed (%s):\n%s" % (variant, r.stdout[-6000:]))
        os.rename(exe + ".tmp", exe)
    return exe


def norm_frame(line):
    m = re.match(r"\s*#\d+\s+(?:0x[0-9a-f]+ in )?(.*?)\s+(?:/|\(|<null>)", line)
    f = m.group(1) if m else line.strip()
    f = re.sub(r"<[^<>]*>", "<>", re.sub(r"<[^<>]*>", "<>", f))
    return re.sub(r"\(.*", "", f)


def san_reports(text):
    """Splits sanitizer output into (kind, stable key, text)."""
    out = []
    for blk in re.findall(r"WARNING: ThreadSanitizer:.*?(?:={18}|\Z)", text, re.S):
        kind = re.match(r"WARNING: ThreadSanitizer: ([^(\n]*)", blk).group(1).strip()
        fr = [norm_frame(l) for l in blk.splitlines() if re.match(r"\s*#\d+ ", l)]
        lib = [f for f in fr if "thts" in f][:2] or fr[:2]
        out.append((kind, "%s: %s" % (kind, " / ".join(lib)), blk[:6000]))
    for m in re.finditer(r"ERROR: (AddressSanitizer|LeakSanitizer): ([^\n]*)", text):
        blk = text[m.start():m.start() + 6000]
        kind = m.group(2).split(" on ")[0].split(" (")[0].strip()
        fr = [norm_frame(l) for l in blk.splitlines() if re.match(r"\s*#\d+ ", l)]
        lib = [f for f in fr if "thts::" in f][:2] or fr[:2]
        out.append((kind, "%s: %s" % (kind, " / ".join(lib)), blk))
    for blk in re.findall(r"(?:^==\d+== .*\n)+", text, re.M):
        m = re.match(r"==\d+== (Conditional jump[^\n]*|Use of uninit[^\n]*|Invalid [^\n]*|Syscall param[^\n]*|Mismatched free[^\n]*|Process terminating[^\n]*|Source and destination[^\n]*|Jump to[^\n]*|Stack overflow[^\n]*)", blk)
        if m:
            fr = [re.sub(r"\(.*", "", re.sub(r"^==\d+==\s+(?:at|by) 0x[0-9A-F]+: ", "", l)) for l in blk.splitlines() if re.search(r"(?:at|by) 0x", l)]
            out.append((m.group(1), "%s: %s" % (m.group(1), " / ".join([f for f in fr if "thts::" in f][:2] or fr[:2])), blk[:4000]))
    for m in re.finditer(r"(\S+?):(\d+):\d+: runtime error: ([^\n]*)", text):
        out.append(("undefined behaviour", "undefined behaviour: %s in %s" % (re.sub(r"-?\d[\d.e+]*", "N", m.group(3)), os.path.basename(m.group(1))), text[m.start():m.start() + 3000]))
    return out


def starved(pid, wall):
    """Whether a process got so little of the processor that its wall time says nothing."""
    try:
        with open("/proc/%d/stat" % pid) as f:
            v = f.read().rsplit(")", 1)[1].split()
        return (int(v[11]) + int(v[12])) / os.sysconf("SC_CLK_TCK") < 0.5 * wall
    except (OSError, IndexError, ValueError):
        return False


def run_job(exe, variant, prop, mode, seed, tier, scale, tmp, tag, timeout, case=None, stop=None):
    out = os.path.join(tmp, tag + ".json")
    cmd = WRAP.get(variant, []) + [exe, "--prop", prop, "--seed", str(seed), "--scale", str(scale), "--out", out]
    if mode:
        cmd += ["--mode", mode]
    if tier == "thorough":
        cmd.append("--thorough")
    if case is not None:
        cmd += ["--case", str(case)]
    env = dict(os.environ)
    env.update(SAN_ENV[variant])
    log = os.path.join(tmp, tag + ".log")
    t0, timeout0 = time.time(), timeout
    if os.path.exists(out):
        os.unlink(out)
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, start_new_session=True, cwd=tmp)
        rc = None
        while rc is None:
            try:
                rc = p.wait(timeout=max(0.01, min(2.0 if stop else timeout, t0 + timeout - time.time())))
            except subprocess.TimeoutExpired:
                halted = bool(stop) and time.time() > stop[0]
                if not halted and time.time() >= t0 + timeout and timeout == timeout0 and starved(p.pid, timeout0):
                    timeout *= 1.5
                elif halted or time.time() >= t0 + timeout:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    rc = "stopped" if halted else "timeout"
    with open(log, errors="replace") as f:
        text = f.read()
    data = None
    if os.path.exists(out):
        try:
            with open(out) as f:
                data = json.load(f)
        except ValueError:
            data = None
    return dict(rc=rc, text=text, data=data, cmd=cmd, wall=time.time() - t0, variant=variant, mode=mode, seed=seed, scale=scale)


def judge(prop, r):
    """Turns the end of one run into a list of (key, detail, case)."""
    rc, text, data = r["rc"], r["text"], r["data"]
    vs = []
    for v in (data or {}).get("violations", []):
        vs.append((v["key"], v["detail"], v["case"]))
    reps = san_reports(text) if r["variant"] != "plain" else []
    for kind, key, blk in reps:
        if r["variant"] == "tsan":
            # lock-order reports ignore common guarding locks; the lock watch of P06 judges lock order instead
            if "lock-order" not in kind:
                vs.append((key, blk, None))
        else:
            vs.append((key, blk, None))
    if rc in (0, 10):
        return vs, None
    if rc == 42:
        m = re.search(r"HANG case=(-?\d+) (.*)", text)
        vs.append(("hang: %s" % (re.search(r"phase=(.*?) threads", text).group(1) if m else "?"),
                   "every thread is asleep and nothing will wake any of them: " + (m.group(0) if m else ""), int(m.group(1)) if m else None))
        return vs, None
    if rc in ("timeout", "stopped"):
        return vs, rc
    if rc == 3:
        return vs, "harness error: " + text[-2000:]
    if reps and rc in (66, 77, 78, 79, 1):
        return vs, None
    m = re.search(r"(TERMINATE|SIGNAL|HARNESS)[^\n]*", text)
    c = re.search(r"case=(-?\d+)", text)
    what = m.group(0) if m else "exit status %s" % rc
    tail = "\n".join(l for l in text.splitlines()[-15:])
    vs.append(("crash: " + re.sub(r"case=-?\d+ ?", "", what), "the code under test ended the process: %s\n%s" % (what, tail), int(c.group(1)) if c else None))
    return vs, None


def load_known():
    known = []
    p = os.path.join(HERE, "known", "findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(.*?) \| (.*)", l.strip())
            if m:
                known.append((m.group(1), m.group(2), m.group(3)))
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 8)
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop, tier = a.property, ("thorough" if a.tier == "thorough" else "quick")
    t0 = time.time()
    jobs = PLAN[prop]
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    lock = open(os.path.join(HERE, "build", ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    exes = {}
    for v in sorted({j["variant"] for j in jobs}):
        b = BUILD_OF.get(v, v)
        if b not in exes:
            exes[b] = build(b, os.path.abspath(a.repo), a.jobs)
        exes[v] = exes[b]
    fcntl.flock(lock, fcntl.LOCK_UN)
    tbuild = time.time() - t0
    tmp = os.path.join(HERE, "build", "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    try:
        if a.replay:
            rp = json.load(open(a.replay))
            r = run_job(exes[rp["variant"]], rp["variant"], prop, rp["mode"], rp["seed"], rp["tier"], rp["scale"], tmp, "replay", 800, rp.get("case"))
            vs, err = judge(prop, r)
            for k, d, c in vs[:10]:
                print(k, "\n   ", d)
            print("exit", r["rc"], err or "")
            return 1 if vs else 0
        tasks = []
        for j in jobs:
            n = j["shards"][tier]
            for s in range(n):
                tasks.append((j, s))
        # Every run is bounded by its case count; the clock only guards against runs that never end. Such a run is
        # repeated on its own before it counts. Once a violation is known, runs that are still going are given a grace
        # period and then stopped: the verdict cannot change any more.
        lim = 200 if tier == "quick" else 7200
        stop = [float("inf")]

        def go(t):
            j, s = t
            seed = a.seed * 1000 + s
            tag = "%s-%s-%d" % (j["variant"], j["mode"] or "main", s)
            if time.time() > stop[0]:
                return j, None, t
            r = run_job(exes[j["variant"]], j["variant"], prop, j["mode"], seed, tier, j["scale"][tier], tmp, tag, lim, stop=stop)
            vs, err = judge(prop, r)
            if vs:
                stop[0] = min(stop[0], time.time() + (20 if tier == "quick" else 600))
            elif err == "timeout":
                stop[0] = min(stop[0], time.time() + 5)
            return j, r, t

        width = min(a.jobs, max(1, a.jobs // max(j.get("cores", 1) for j in jobs)))

        def sweep(ts):
            stop[0] = float("inf")
            with ThreadPoolExecutor(width) as ex:
                return list(ex.map(go, ts))

        found, errors, runs, results = [], [], [], []
        todo = tasks
        for attempt in range(2):
            undone = []
            for j, r, t in sweep(todo):
                vs, err = judge(prop, r) if r else ([], "stopped")
                if err in ("timeout", "stopped") and not vs:
                    undone.append((j, r, t, err))
                    continue
                if err:
                    errors.append(err)
                results.append(r)
                for k, d, c in vs:
                    found.append((k, d, c, r))
                if r["data"]:
                    runs.append((j, r))
            if found or not undone:
                break
            slow = [u for u in undone if u[3] == "timeout"] or undone
            j, r, t, err = slow[0]
            if r is None or attempt == 1:
                errors.append("runs did not finish in the time available: %s" % [u[2][1] for u in undone])
                break
            r2 = run_job(exes[r["variant"]], r["variant"], prop, r["mode"], r["seed"], tier, r["scale"], tmp, "again", lim)
            vs, err = judge(prop, r2)
            if err == "timeout" and not vs:
                vs, err = [("no progress", "the workload did not finish in two attempts (%.0f s and %.0f s); it takes seconds otherwise. %s"
                            % (r["wall"], r2["wall"], r2["text"][-500:]), None)], None
            if err:
                errors.append(err)
            results.append(r2)
            for k, d, c in vs:
                found.append((k, d, c, r2))
            if r2["data"]:
                runs.append((j, r2))
            if found:
                break
            todo = [u[2] for u in undone if u[2] is not t]
            if not todo:
                break
        known = load_known()
        new, seen_known = [], {}
        for k, d, c, r in found:
            hit = [x for x in known if x[0] == prop and x[1] == k]
            if hit:
                seen_known[k] = hit[0][2]
            else:
                new.append((k, d, c, r))
        # ---- evidence ----
        counters, samples, notes, rules = {}, [], [], []
        ev = dist = 0
        for j, r in runs:
            d = r["data"]
            ev += d["evaluations"]
            dist += d["distinct"]
            for k, v in d["counters"].items():
                if not k.startswith("other_property"):
                    counters[k] = counters.get(k, 0) + v
            for s in d["samples"]:
                if len(samples) < 8:
                    samples.append(("[%s%s seed %d] " % (j["variant"], ":" + j["mode"] if j["mode"] else "", r["seed"])) + s)
            for s in d["notes"][:4]:
                if len(notes) < 16:
                    notes.append(s)
            if d["rule"] and d["rule"] not in rules:
                rules.append(d["rule"])
        evid = {
            "property": prop, "tier": tier, "seed": a.seed, "level": "exploration",
            "coverage": {
                "evaluations": ev, "distinct_nontrivial": dist, "rule": " || ".join(rules), "samples": samples or ["(no case finished)"],
                "observed": dict(sorted(counters.items())), "notes": notes, "processes": len(results),
                "builds": sorted({j["variant"] for j in jobs}), "modes": sorted({"%s:%s" % (j["variant"], j["mode"] or "main") for j in jobs}),
            },
            "assumptions": ASSUMPTIONS.get("*", []) + ASSUMPTIONS.get(prop, []),
            "wall_s": round(time.time() - t0, 2), "violations": len(new),
        }
        evid["coverage"]["build_s"] = round(tbuild, 1)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(evid, f, indent=1)
            f.write("\n")
        for k, what in seen_known.items():
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        if new:
            groups = {}
            for k, d, c, r in new:
                groups.setdefault(k, (d, c, r))
            rdir = os.path.join(HERE, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            for i, (k, (d, c, r)) in enumerate(list(groups.items())[:12]):
                path = os.path.join(rdir, "%s-%d.json" % (prop, i))
                with open(path, "w") as f:
                    json.dump({"property": prop, "key": k, "detail": d, "variant": r["variant"], "mode": r["mode"], "seed": r["seed"],
                               "tier": tier, "scale": r["scale"], "case": c, "how": "python3 run.py %s --replay %s" % (prop, path)}, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("   %s: %s" % (k, d[:600].replace("\n", "\n   ")))
            return 1
        if errors:
            print("CHECK-ERROR", errors[0][:3000])
            return 2
        if ev == 0 or dist == 0:
            print("CHECK-ERROR nothing was observed")
            return 2
        print("OK property=%s evaluations=%d distinct=%d wall=%.1fs (build %.1fs)" % (prop, ev, dist, time.time() - t0, tbuild))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK-ERROR", e)
        sys.exit(2)
