from .common import *


def builds():
    return [cxx(f"gbtree{p}", ["gbtree.cc"], flags=f"-DPART={p} -I$REPO/GoogleBTree", san="-O1 -g -fsanitize=address -fno-omit-frame-pointer", cover=False, deps=["GoogleBTree"]) for p in range(3)]


def spec(tier, seed):
    n = 3000 if tier == "quick" else 60000
    return {"builds": builds(), "rule": "distinct (container, height, nodes, elements) shapes that were compared with the model",
            "runs": [{"name": f"{'ints strings objects'.split()[p]}{i}", "build": f"gbtree{p}", "cores": 1, "args": [f"seed={seeds(seed, p * 10 + i)}", f"n={n}"]} for p in range(3) for i in range(2)],
            "assumptions": ["comparators are strict weak orders, elements are copyable and swappable, iterators are not used after a modification (as documented)"]}
