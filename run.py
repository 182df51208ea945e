#!/usr/bin/env python3
"""Runner of the runtime-monitoring checks: builds the harnesses of one property from /repo's current
working tree, runs them in parallel, judges what their monitors printed, and writes the evidence file.

usage: run.py PROPERTY            (VERIF_SEED and VERIF_TIER in the environment)
       run.py --setup             checks that the tools the harnesses need are there
       run.py PROPERTY --only RE  only the runs whose name matches (development)
"""
import hashlib, importlib, json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
CORES = os.cpu_count() or 8
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
ENV = dict(os.environ, HOME="/root", LANG="C.UTF-8", LC_ALL="C.UTF-8",
           ASAN_OPTIONS="detect_leaks=0:detect_odr_violation=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                        "detect_stack_use_after_return=0:handle_abort=1:handle_segv=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98",
           TSAN_OPTIONS="halt_on_error=1:exitcode=97:second_deadlock_stack=1:history_size=4")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")


def log(*a):
    print(*a, flush=True)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        files = []
        if os.path.isfile(p):
            files = [p]
        else:
            for d, dirs, fs in os.walk(p):
                dirs[:] = sorted(x for x in dirs if not x.startswith((".", "_build")))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            try:
                with open(f, "rb") as fd:
                    h.update(f.encode() + b"\0" + fd.read() + b"\0")
            except OSError:
                pass
    return h


class BuildError(Exception):
    pass


_tree_cache = {}


def build(b):
    """b: name, cmds (list of shell commands; $OUT is the output binary, $TMP a scratch folder), deps."""
    key = tuple(b["deps"])
    if key not in _tree_cache:
        _tree_cache[key] = tree_hash([REPO + "/" + d for d in b["deps"]]
                                     + [VERIF + "/harness"]).hexdigest()
    h = hashlib.sha256(_tree_cache[key].encode())
    for c in b["cmds"]:
        h.update((c if isinstance(c, str) else "\1".join(c)).encode() + b"\0")
    out = os.path.join(BUILD, b["name"] + "-" + h.hexdigest()[:16])
    if os.path.exists(out):
        return out
    tmp = out + f".tmp{os.getpid()}"
    os.makedirs(tmp, exist_ok=True)
    env = dict(ENV, OUT=tmp + "/out", TMP=tmp, REPO=REPO, H=VERIF + "/harness")
    try:
        for step in b["cmds"]:
            group = [step] if isinstance(step, str) else list(step)
            procs = [(c, subprocess.Popen(["bash", "-c", c], cwd=tmp, env=env, stdin=subprocess.DEVNULL,
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for c in group]
            bad = None
            for c, p in procs:
                o = p.communicate()[0].decode("utf-8", "replace")
                if p.returncode and not bad:
                    bad = f"$ {c}\n{o[-6000:]}"
            if bad:
                raise BuildError(f"{b['name']}: build failed\n{bad}")
        for old in os.listdir(BUILD):
            m = re.fullmatch(re.escape(b["name"]) + r"-[0-9a-f]{16}", old)
            if m:
                try:
                    os.unlink(os.path.join(BUILD, old))
                except OSError:
                    pass
        os.rename(tmp + "/out", out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


SAN = re.compile(r"ERROR: AddressSanitizer: ([\w-]+)|runtime error: (.*)|WARNING: ThreadSanitizer: ([\w -]+)"
                 r"|ERROR: LeakSanitizer: (.*)|Assertion [`'](.*?)['`] failed|terminate called|(assertion .* failed)"
                 r"|(DEADLYSIGNAL)|(MemorySanitizer: .*)")


def summarize_crash(text, rc):
    m = None
    for line in text.splitlines():
        m = SAN.search(line)
        if m:
            break
    what = m.group(0).strip()[:300] if m else f"exit status {rc}"
    frames = []
    for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (.+)", text):
        if REPO in f:
            frames.append(re.sub(r"\s+", " ", f.replace(REPO + "/", ""))[-160:])
        if len(frames) >= 2:
            break
    return what + (" at " + " <- ".join(frames) if frames else "")


class Result:
    def __init__(self):
        self.stats, self.maxstats, self.samples, self.viol, self.known, self.notes = {}, {}, [], [], [], []
        self.evals = self.distinct = 0
        self.inconclusive = None


def run_one(prop, run, binary, attempt=0):
    r = Result()
    name = run["name"]
    args = [a.replace("$BIN", binary or "").replace("$H", VERIF + "/harness").replace("$REPO", REPO)
            for a in run["args"]]
    cmd = ([binary] if binary and not run.get("script") else []) + args
    scratch = os.path.join(BUILD, f"scratch-{prop}-{name}-{os.getpid()}")
    os.makedirs(scratch, exist_ok=True)
    env = dict(ENV, VERIF_SEED=str(SEED), VERIF_TIER=TIER, SCRATCH=scratch, TMPDIR=scratch, **run.get("env", {}))
    timeout = run.get("timeout", 300 if TIER == "quick" else 3000)
    t0 = time.time()
    with open(scratch + "/.out", "wb") as so:
        p = subprocess.Popen(cmd, cwd=scratch, env=env, stdin=subprocess.DEVNULL, stdout=so,
                             stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    with open(scratch + "/.out", "rb") as f:
        data = f.read()
    if len(data) > 400000:
        data = data[:200000] + b"\n...\n" + data[-200000:]
    text = data.decode("utf-8", "replace")
    shutil.rmtree(scratch, ignore_errors=True)
    done = False
    for line in text.splitlines():
        if not line.startswith("@@"):
            continue
        w = line.split(" ", 2)
        try:
            if w[0] == "@@STAT":
                r.stats[w[1]] = r.stats.get(w[1], 0) + int(w[2])
            elif w[0] == "@@MAX":
                r.maxstats[w[1]] = max(r.maxstats.get(w[1], 0), int(w[2]))
            elif w[0] == "@@EVAL":
                r.evals += int(w[1])
            elif w[0] == "@@DISTINCT":
                r.distinct += int(w[1])
            elif w[0] == "@@SAMPLE":
                r.samples.append(line[9:][:600])
            elif w[0] == "@@VIOL":
                r.viol.append(line[7:][:1500])
            elif w[0] == "@@KNOWN":
                r.known.append((w[1], w[2] if len(w) > 2 else ""))
            elif w[0] == "@@INCONCLUSIVE":
                r.inconclusive = line[15:]
            elif w[0] == "@@DONE":
                done = True
        except (ValueError, IndexError):
            pass
    if rc is None and not r.viol:
        r.inconclusive = f"no end within {timeout} s"
    elif not r.viol and not r.inconclusive and (rc != 0 or not done):
        if rc in (-9, 137):
            r.inconclusive = "killed"
        else:
            r.viol.append(f"crash {summarize_crash(text, rc)}")
    r.text, r.cmd, r.rc, r.wall = text, cmd, rc, time.time() - t0
    return r


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def save_replay(prop, name, r, spec_run, binary):
    d = os.path.join(REPLAYS, f"{prop}-{name}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(d + "/output.txt", "w") as f:
        f.write(r.text)
    with open(d + "/replay.sh", "w") as f:
        f.write("#!/bin/bash\n# run again what reported the violation (the same tree in /repo is assumed)\n"
                f"cd {VERIF} && VERIF_SEED={SEED} VERIF_TIER={TIER} python3 run.py {prop} --only '^{re.escape(name)}$'\n")
    os.chmod(d + "/replay.sh", 0o755)
    return d


def main():
    if "--setup" in sys.argv:
        for t in (["g++", "--version"], ["clang++", "--version"], ["python3", "--version"]):
            subprocess.run(t, check=True, stdout=subprocess.DEVNULL)
        os.makedirs(BUILD, exist_ok=True)
        log("tools are there")
        return 0
    prop = sys.argv[1]
    only = re.compile(sys.argv[sys.argv.index("--only") + 1]) if "--only" in sys.argv else None
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    spec = importlib.import_module("checks." + prop).spec(TIER, SEED)
    runs = [x for x in spec["runs"] if not only or only.search(x["name"])]
    need = {x.get("build") for x in runs if x.get("build")}
    builds = [b for b in spec["builds"] if b["name"] in need]

    binaries, errors, lock = {}, {}, threading.Lock()
    sem = threading.Semaphore(CORES)

    def do_build(b):
        with sem:
            try:
                out = build(b)
                with lock:
                    binaries[b["name"]] = out
            except BuildError as e:
                with lock:
                    errors[b["name"]] = str(e)

    ths = [threading.Thread(target=do_build, args=(b,)) for b in builds]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if errors:
        for e in errors.values():
            log(e)
        log("build of the harness failed: no answer")
        return 3
    tbuild = time.time() - t0

    cond, free, results = threading.Condition(), [CORES], {}

    def do_run(x):
        w = min(x.get("cores", 1), CORES)
        with cond:
            while free[0] < w:
                cond.wait()
            free[0] -= w
        try:
            r = run_one(prop, x, binaries.get(x.get("build")))
            if r.inconclusive:
                log(f"  {x['name']}: inconclusive ({r.inconclusive}), trying again")
                r = run_one(prop, x, binaries.get(x.get("build")), 1)
            with lock:
                results[x["name"]] = r
            log(f"  {x['name']}: {'VIOL' if r.viol else r.inconclusive or 'ok'} "
                f"evals={r.evals} {r.wall:.1f}s {r.stats if r.stats else ''}")
        finally:
            with cond:
                free[0] += w
                cond.notify_all()

    # big ones first
    order = sorted(runs, key=lambda x: -min(x.get("cores", 1), CORES))
    ths = [threading.Thread(target=do_run, args=(x,)) for x in order]
    [t.start() for t in ths]
    [t.join() for t in ths]

    known = load_known(prop)
    open_known = [k for k in known if k.get("status", "open") == "open"]
    rc, nviol, seen_known = 0, 0, {}
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": spec["rule"], "samples": []}
    stats, inconclusive = {}, []
    for x in runs:
        r = results[x["name"]]
        cov["evaluations"] += r.evals
        cov["distinct_nontrivial"] += r.distinct
        cov["samples"] += [f"[{x['name']}] {s}" for s in r.samples[:2]]
        for k, v in r.stats.items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r.maxstats.items():
            stats[k] = max(stats.get(k, 0), v)
        for kid, what in r.known:
            if any(k["id"] == kid for k in open_known):
                seen_known[kid] = what
            else:
                r.viol.append(f"known-defect {kid} not listed as a known finding: {what}")
        if r.inconclusive:
            inconclusive.append(f"{x['name']}: {r.inconclusive}")
        for v in r.viol:
            m = [k for k in open_known if k.get("match") and re.search(k["match"], v)
                 and (not k.get("run") or re.search(k["run"], x["name"]))]
            if m:
                seen_known[m[0]["id"]] = v[:200]
                continue
            nviol += 1
            d = save_replay(prop, x["name"], r, x, binaries.get(x.get("build")))
            log(f"  {x['name']}: {v}")
            log_tail = "\n".join(l for l in r.text.splitlines() if not l.startswith("@@STAT"))[-3000:]
            log("    | " + log_tail.replace("\n", "\n    | "))
            if rc == 0:
                log(f"VIOLATION property={prop} replay={d}/replay.sh")
            rc = 1
            break
    for k in open_known:
        if k["id"] in seen_known:
            log(f"KNOWN-FINDING: property={prop} {k['what']}")
        elif not only:
            log(f"  (known finding {k['id']} did not show in this run)")
    cov["samples"] = cov["samples"][:12]
    cov["monitors"] = stats
    cov["runs"] = {x["name"]: {"evaluations": results[x["name"]].evals,
                               "wall_s": round(results[x["name"]].wall, 1)} for x in runs}
    if inconclusive:
        cov["inconclusive"] = inconclusive
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": spec.get("level", "exploration"),
          "coverage": cov, "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 1), "violations": nviol}
    if not only:
        with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
            json.dump(ev, f, indent=1)
    log(f"{prop}: {cov['evaluations']} evaluations, {cov['distinct_nontrivial']} distinct non-trivial, "
        f"{nviol} violations, build {tbuild:.0f} s, total {time.time() - t0:.0f} s")
    if rc == 0 and len(inconclusive) == len(runs) and runs:
        log("no run came to an end: no answer")
        return 3
    return rc


if __name__ == "__main__":
    sys.exit(main())
