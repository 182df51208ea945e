from .common import *
FL = "-I$REPO/MassTree -include config.h"
LIB = [f"$REPO/MassTree/{f}.cc" for f in ("kvthread", "json", "msgpack", "compiler", "str", "string", "straccum", "value_array", "value_string", "value_versioned_array", "memdebug")]


def builds():
    return [cxx("rows", ["rows.cc"] + LIB, flags=FL, cover=False, deps=["MassTree"], libs="-lnuma -lpthread",
                san="-DFORCE_ENABLE_ASSERTIONS=1 -DHAVE_MEMDEBUG=1 -O1 -g -fsanitize=address,undefined -fno-sanitize=alignment,shift,enum,pointer-overflow,nonnull-attribute -fno-sanitize-recover=undefined -fno-omit-frame-pointer"),
            cxx("rows-fast", ["rows.cc"] + LIB, flags=FL, cover=True, deps=["MassTree"], libs="-lnuma -lpthread",
                san="-DENABLE_PRECONDITIONS=0 -O1 -g -fsanitize=address -fno-omit-frame-pointer")]


def spec(tier, seed):
    k = 1 if tier == "quick" else 40
    return {"builds": builds(), "rule": "sequential: distinct final tables (keys, row sizes, row type); concurrent: distinct whole-row writes that a reader observed",
            "runs": [{"name": f"seq{i}", "build": "rows", "cores": 1, "args": [f"seed={seeds(seed, i)}", f"cases={700 * k}"]} for i in range(8)]
            + [{"name": f"conc-{('bag', 'array', 'versioned', 'string')[i % 4]}-{i // 4}", "build": "rows-fast", "cores": 4, "args": [f"seed={seeds(seed, 100 + i)}", f"cases={25 * k}", "conc=1", f"row={i % 4}", f"threads={(4, 7)[i // 4]}"]} for i in range(8)],
            "assumptions": ["keys are at most 255 bytes and readable 8 bytes beyond their ends", "column numbers of one change ascend", "string rows are at most 65535 bytes", "an empty column may be null in an answer"]}
