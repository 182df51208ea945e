from .common import *
from .P18 import WHFL, WHC, WHASAN
LIBC = [(f"$REPO/wormhole/{f}.c", WHC) for f in ("kv", "lib")]


def builds():
    return [cxx("whlib-asan", ["whlib.cc"] + LIBC, san=WHASAN, flags=WHFL, deps=["wormhole"]),
            cxx("whlib-plain", ["whlib.cc"] + LIBC, san="-O2", cover=False, flags=WHFL, deps=["wormhole"]),
            cxx("whlib-pert", ["whlib.cc"] + LIBC, san=PERT, flags=WHFL, deps=["wormhole"])]


def run(name, build, seed, n, cores=1, *extra):
    return {"name": name, "build": build, "cores": cores, "args": [f"mode={name.rstrip('0123456789')}", f"seed={seed}", f"n={n}", *extra]}


def spec(tier, seed):
    k = 1 if tier == "quick" else 15
    s = seeds(seed, 0)
    return {"builds": builds(), "rule": "distinct key pairs, values, lock and reclaimer rounds that were checked",
            "runs": [run("kv0", "whlib-asan", s, 12000 * k), run("kv1", "whlib-plain", s + 1, 40000 * k),
                     run("lib0", "whlib-asan", s + 2, 20000 * k), run("lib1", "whlib-plain", s + 3, 60000 * k),
                     run("co0", "whlib-plain", s + 4, 4000 * k), run("slab0", "whlib-asan", s + 5, 40 * k, 4), run("slab1", "whlib-pert", s + 6, 150 * k, 4),
                     run("locks0", "whlib-pert", s + 7, 400 * k, 4), run("qsbr0", "whlib-pert", s + 8, 60 * k, 4, "waits=100000"),
                     run("qsbr1", "whlib-plain", s + 9, 8 * k, 4, "waits=700000"), run("qsbr2", "whlib-asan", s + 10, 16 * k, 4, "waits=100000")],
            "assumptions": ["rotations by multiples of the word size and lengths above 4 GB are not used"]}
