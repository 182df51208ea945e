from .common import *


def builds():
    return [cxx(f"tlxbtree{p}", ["tlxbtree.cc", "$REPO/STX/tlx/tlx/die/core.cpp"], flags=f"-DPART={p} -I$REPO/STX/tlx", san="-O1 -g -fsanitize=address -fno-omit-frame-pointer", cover=False, deps=["STX"]) for p in range(3)]


def spec(tier, seed):
    n = 1000 if tier == "quick" else 40000
    return {"builds": builds(), "rule": "distinct (container, leaves, inner nodes, elements) shapes that were compared with the model",
            "runs": [{"name": f"{'ints strings objects'.split()[p]}{i}", "build": f"tlxbtree{p}", "cores": 1, "args": [f"seed={seeds(seed, p * 10 + i)}", f"n={n}"]} for p in range(3) for i in range(2)],
            "assumptions": ["comparators are strict weak orders, nodes have at least four slots, an insertion may place an element anywhere among its equals, iterators are not used after a modification"]}
