#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below; a property is claimed when checks/<id>.py is there."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "model-checked operation streams under ASan/UBSan"
LIN = "per-key linearizability of recorded histories under injected delays, ASan/UBSan"
SEQN = ("Every result of generated operation streams is compared with a model map while address and undefined-behaviour "
        "sanitizers watch; a sample of the streams, not all of them.")
LINN = ("Histories of real threads with delays injected at basic blocks, of single preempted operations and of controlled schedules are checked completely for per-key linearizability; "
        "a sample of the interleavings on x86, not all of them.")
T = {
    "P01": (SEQ, SEQN), "P02": (LIN, LINN), "P03": (SEQ, SEQN), "P04": (LIN, LINN),
    "P05": ("online exclusion monitor over contended latches with injected delays",
            "Exclusion, shared access, validated reads, upgrades, hand-over and queue-node reuse are monitored on every latch kind under "
            "contention; a sample of the interleavings on x86."),
    "P06": (SEQ, SEQN), "P07": (LIN, LINN), "P08": (SEQ, SEQN), "P09": (LIN, LINN), "P10": (SEQ, SEQN), "P11": (LIN, LINN),
    "P12": (SEQ, SEQN), "P13": (LIN, LINN),
    "P14": ("crash injection on the real server, recovered state checked against the request log",
            "The server is killed and its logs are cut at sampled points; recovered contents are checked to be a prefix state."),
    "P15": ("protocol-level model checking of request streams against the running server",
            "Every answer of the running server is compared with a column-store model; concurrent connections are checked per key."),
    "P16": ("round-trip and differential oracle over generated and mutated documents under ASan/UBSan",
            "Generated values and corrupted inputs only."),
    "P17": ("column model over generated updates of every row type under ASan/UBSan", "Generated update sequences only."),
    "P18": (SEQ, SEQN), "P19": (LIN, LINN),
    "P20": ("reference implementations and lock monitors over generated inputs under sanitizers", "Generated inputs and sampled interleavings."),
    "P21": ("sorted-vector model with element life-cycle and allocation tracking under AddressSanitizer", SEQN),
    "P22": ("sorted-vector model with element life-cycle and allocation tracking under AddressSanitizer", SEQN),
    "P23": ("differential against abstract models with element life-cycle tracking under ASan/UBSan", SEQN),
    "P24": ("sortedness, permutation, stability and split oracles over generated inputs under sanitizers", "Generated inputs only."),
    "P25": ("reference implementations over generated inputs under ASan/UBSan", "Generated inputs; small domains are covered completely."),
    "P26": ("online synchronisation monitors under injected delays and ThreadSanitizer", "A sample of the interleavings on x86."),
    "P27": (SEQ, SEQN), "P28": (LIN, LINN),
    "P29": ("differential against a plain search of the array under ASan/UBSan", "Generated arrays and probe keys."),
}
NA = {}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/checks/{i}.py") and i not in NA:
        t, n = T[i]
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": "runtime monitoring: " + t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks in the sources: the harnesses compile /repo's files with -fsanitize and -fsanitize-coverage=trace-pc, whose callback injects delays",
               "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
