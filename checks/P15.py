from .common import *
MTD = "log file checkpoint kvio misc json string straccum str msgpack kvrandom compiler memdebug kvthread query_masstree string_slice value_string value_array value_versioned_array perfstat".split()
WRAPS = "gettimeofday nanosleep sleep pthread_cond_timedwait write pwrite fsync ftruncate rename unlink listen".split()
# (the preconditions of leaf::ksuf do not hold for optimistic reads, whose results are discarded)
SAN = "-DENABLE_ASSERTIONS=1 -DENABLE_PRECONDITIONS=0 -DHAVE_MEMDEBUG=1 -O1 -g -fsanitize=address -fno-omit-frame-pointer"


def server(row=""):
    m = "$REPO/MassTree/"
    return cxx("server" + row.lower(), ["server.cc", (m + "mtd.cc", "-Dmain=mtd_main"), (m + "clp.c", "-x c++")] + [m + f + ".cc" for f in MTD],
               flags="-I$REPO/MassTree -include config.h" + (f" -DMASSTREE_ROW_TYPE_{row}=1" if row else ""), san=SAN, cover=False, deps=["MassTree"], libs=" ".join("-Wl,--wrap=" + w for w in WRAPS) + " -lnuma -lpthread")


def builds():
    return [server()]


def spec(tier, seed):
    k = 1 if tier == "quick" else 60
    return {"builds": builds(), "rule": "cases: a server with its own number of threads, epochs and checkpointing, its clients and hostile peers; distinct by the final content of all clients' keys",
            "runs": [{"name": f"serve{i}", "build": "server", "cores": 2, "args": [f"seed={seeds(seed, i)}", f"cases={12 * k}"]} for i in range(8)],
            "assumptions": ["the handshake of a connection arrives in one packet and is answered before requests are sent", "requests and answers of one connection fit the buffers of both sides (the server writes while it does not read)", "column numbers of one put ascend"]}
