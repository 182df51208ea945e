from .common import *
from .P15 import server


def builds():
    return [server()]


def spec(tier, seed):
    k = 1 if tier == "quick" else 20
    return {"builds": builds(), "rule": "cases: a server directory with its own number of threads, logs, checkpoint directories and speed, taken through several crashes and recoveries; distinct by the contents recovered",
            "runs": [{"name": f"recover{i}", "build": "server", "cores": 1, "args": ["mode=recover", f"seed={seeds(seed, i)}", f"cases={12 * k}"]} for i in range(16)],
            "assumptions": ["the number of threads and the directories stay the same between restarts", "what a file held when it was last synchronised stays; of the rest, a prefix", "no corruption inside a record (the log has no checksums)"]}
