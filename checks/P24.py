from .common import *

T = "$REPO/STX/tlx/tlx/"
LIB = [T + "thread_pool.cpp", T + "algorithm/parallel_multiway_merge.cpp", T + "multi_timer.cpp", T + "logger/core.cpp", T + "die/core.cpp"]
A = "-O1 -g1 -fsanitize=address -fno-omit-frame-pointer"
AU = "-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer"
TS = "-O1 -g1 -fsanitize=thread"


def builds():
    b = lambda name, p, san: cxx(name, ["sorts.cc"] + LIB, flags=f"-DPART={p} -I$REPO/STX/tlx", san=san, cover=False, deps=["STX"])
    return [b("sort2", 2, A), b("sort2-tsan", 2, TS), b("sort0", 0, AU), b("sort1", 1, A), b("sort3", 3, A), b("sort3-tsan", 3, TS)]


def spec(tier, seed):
    k = 1 if tier == "quick" else 40
    runs = []
    for name, build, n, copies, cores in [("sequential", "sort0", 3000, 2, 1), ("strings", "sort1", 600, 3, 1), ("pstrings", "sort2", 1000, 3, 2), ("pmerge", "sort3", 2500, 2, 2),
                                          ("pstrings-tsan", "sort2-tsan", 500, 1, 2), ("pmerge-tsan", "sort3-tsan", 700, 1, 2)]:
        runs += [{"name": f"{name}{i}", "build": build, "cores": cores, "args": [f"seed={seeds(seed, 10 * len(runs) + i)}", f"n={n * k}"]} for i in range(copies)]
    return {"builds": builds(), "runs": runs,
            "rule": "one evaluation is one call of one algorithm judged against a stable sort of its input; distinct by algorithm, variant, sizes and parameters; the sorting networks up to 16 elements are run on every vector of zeros and ones",
            "assumptions": ["comparators are strict weak orders, the merged sequences are sorted, no more elements are asked for than there are", "strings contain no NUL bytes; strings share the first `depth` bytes that a sort is told to skip",
                            "a sentinel behind a sequence is greater than all elements"]}
