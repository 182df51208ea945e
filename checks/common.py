"""Helpers shared by the check specifications."""
ASAN = "-O1 -g -fsanitize=address,undefined -fno-omit-frame-pointer"
ASAN_ONLY = "-O1 -g -fsanitize=address -fno-omit-frame-pointer"
TSAN = "-O1 -g -fsanitize=thread"
PERT = "-O2 -g"
MEM = "-O1 -g -fsanitize=thread"    # every memory access is a scheduling point (perturb.cc stands in for the runtime)


def cxx(name, srcs, flags="", libs="-lpthread", deps=(), san=ASAN, cover=True, std="c++17", cc="g++", pre=()):
    """One harness binary: the sources under test are compiled with basic-block hooks, perturb.cc without."""
    if isinstance(srcs, str):
        srcs = [srcs]
    mem = san == MEM
    cov = "-fsanitize-coverage=trace-pc" if cover and not mem else ""
    comp, objs = [], []
    for i, s in enumerate(srcs):
        s, extra = s if isinstance(s, tuple) else (s, "")
        o = f"$TMP/{i}.o"
        s = s if s.startswith("$") else "$H/" + s
        comp.append(f"{cc} -std={std} {san} {cov} -w -I$H {flags} {extra} -c {s} -o {o}")
        objs.append(o)
    comp.append(f"{cc} -std={std} -O2 {'-DVF_MEM' if mem else ''} -c $H/perturb.cc -o $TMP/perturb.o")
    link = f"{cc} {'' if mem else san} {' '.join(objs)} $TMP/perturb.o -o $OUT {libs} -ldl"
    return {"name": name, "cmds": list(pre) + [comp, link], "deps": list(deps)}


def seeds(seed, i):
    return seed * 1000 + i


def seq_runs(build, tier, seed, n=4, cases=60, ops=20000, keys=12000, thorough=12, extra=(), prefix="seq", timeout=None, cores=1):
    k = 1 if tier == "quick" else thorough
    out = []
    for i in range(n):
        r = {"name": f"{prefix}{i}", "build": build, "cores": cores,
             "args": ["mode=seq", f"seed={seeds(seed, i)}", f"cases={cases * k}", f"ops={ops}", f"keys={keys}", *extra]}
        if timeout:
            r["timeout"] = timeout
        out.append(r)
    return out


def conc_runs(build, tier, seed, n=4, rounds=60, ops=12000, threads=8, keys=2000, mask=1023, thorough=12, extra=(), prefix="conc", cores=2):
    k = 1 if tier == "quick" else thorough
    return [{"name": f"{prefix}{i}", "build": build, "cores": cores,
             "args": ["mode=conc", f"seed={seeds(seed, 100 + i)}", f"rounds={rounds * k}", f"ops={ops}",
                      f"threads={threads}", f"keys={keys}", f"mask={mask}", *extra]} for i in range(n)]


def pre_runs(build, tier, seed, n=2, execs=20000, keys=2000, thorough=12, extra=(), prefix="pre", cores=2):
    k = 1 if tier == "quick" else thorough
    return [{"name": f"{prefix}{i}", "build": build, "cores": cores,
             "args": ["mode=preempt", f"seed={seeds(seed, 200 + i)}", f"execs={execs * k}", f"keys={keys}", *extra]} for i in range(n)]


def sched_runs(build, tier, seed, n=2, execs=20000, keys=2000, thorough=12, extra=(), prefix="sched", cores=4):
    k = 1 if tier == "quick" else thorough
    return [{"name": f"{prefix}{i}", "build": build, "cores": cores,
             "args": ["mode=sched", f"seed={seeds(seed, 300 + i)}", f"execs={execs * k}", f"keys={keys}", *extra]} for i in range(n)]


SEQ_RULE = ("one evaluation is one generated case: a fresh map, a key set of one shape, and up to `ops` operations in "
            "phases (grow, shrink, churn, read, fill and drain; uniform, ascending, descending, windowed, strided), every "
            "result compared with a model map and all lookups and scans compared at the end of phases; distinct by a hash of "
            "key shape, size, phase styles, number of operations and final size, counted when the map had more than one key")
CONC_RULE = ("one evaluation is one concurrent round on a fresh map with injected delays; distinct counts the different "
             "interleavings seen: hashes of per-key histories (order of invocations and responses, kinds, outcomes) in which "
             "at least two operations overlapped and one of them was a write; in the preemption runs (pre*) one evaluation is one "
             "execution in which an operation is stopped at one basic block while another thread runs a series of operations, and "
             "distinct counts the different (block of A, block of B, kind, series) combinations in which it was really stopped; in the controlled schedules (sched*) "
             "one evaluation is one execution of two to four threads of which one runs at a time, the turn passing on after random "
             "numbers of basic blocks, and distinct counts different schedules (hash of the switch points) with more than one switch")
