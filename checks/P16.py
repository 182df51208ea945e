from .common import *
FL = "-I$REPO/MassTree -include config.h"
LIB = [f"$REPO/MassTree/{f}.cc" for f in ("json", "msgpack", "compiler", "str", "string", "straccum")]


def builds():
    return [cxx("jsonmsg", ["jsonmsg.cc"] + LIB, flags=FL, cover=False, deps=["MassTree"],
                san="-DFORCE_ENABLE_ASSERTIONS=1 -O1 -g -fsanitize=address,undefined -fno-sanitize=alignment,shift,enum,pointer-overflow,nonnull-attribute -fno-sanitize-recover=undefined -fno-omit-frame-pointer")]


def spec(tier, seed):
    k = 1 if tier == "quick" else 40
    return {"builds": builds(), "rule": "distinct documents, messages and final states of manipulation programs",
            "runs": [{"name": f"json{i}", "build": "jsonmsg", "cores": 1, "args": [f"seed={seeds(seed, i)}", f"cases={1500 * k}"]} for i in range(8)],
            "assumptions": ["strings that are written as JSON text are valid UTF-8", "numbers are finite"]}
