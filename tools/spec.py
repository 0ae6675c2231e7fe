"""What is run for each property: harness sources, memory back end, and how."""
CODEC = ["codec.c"]
PROTO = ["proto.c"]
HTTP = ["http.c"]
CONF = ["conf.c"]
TLS = ["tls.c"]
LIFE = ["life.c"]
POOL = ["pool.c"]
RING = ["ringbuf.c"]
CONC = ["conc.c"]
DEFL = ["deflate.c"]
TIMEO = ["timeout.c"]
TLSC = ["tlsconf.c"]
PLUG = ["plugin.c"]
# name, architecture flags, processor features needed
SIMD = [("scalar", ["-march=x86-64-v2", "-U__SSE2__", "-D__SSE2_IS_OFF__"], []), ("sse", ["-march=x86-64-v2"], []), ("avx2", ["-march=x86-64-v3"], []), ("avx512", ["-march=x86-64-v4"], ["avx512f", "avx512bw", "avx512vl"]), ("avx512vbmi", ["-march=x86-64-v4", "-mavx512vbmi"], ["avx512f", "avx512bw", "avx512vl", "avx512vbmi"])]

def run(harness, backend="asan", name=None, simd=False, quick=120, thorough=900, property=None):
    return dict(harness=harness, backend=backend, name=name, simd=simd, quick=quick, thorough=thorough, property=property)

def conc():
    return [run(CONC, name="conc", quick=300, thorough=1800), run(CONC, "tsan", name="conc", quick=150, thorough=600)]

SPEC = {
    "W01": [run(CODEC, simd=True, name="codec"), run(PROTO, name="proto")],
    "W02": [run(CODEC, name="codec"), run(PROTO, name="proto")],
    "W03": [run(PROTO, name="proto")],
    "W04": [run(PROTO, name="proto")],
    "W05": [run(CODEC, simd=True, name="codec"), run(PROTO, name="proto")],
    "W06": [run(PROTO, name="proto")],
    "W07": [run(PROTO, name="proto")],
    "W08": [run(HTTP, name="http")],
    "W09": [run(HTTP, name="http")],
    "W10": [run(HTTP, name="http")],
    "W11": [run(PROTO, name="proto"), run(HTTP, name="http"), run(DEFL, name="deflate", quick=250), run(TLS, name="tls")],
    "W12": [run(HTTP, name="http")],
    "W13": [run(DEFL, name="deflate", quick=500, thorough=3000), run(DEFL, "tsan", name="deflate", quick=100)],
    "W14": [run(PROTO, name="proto"), run(HTTP, name="http"), run(DEFL, name="deflate")],
    "W15": [run(RING, "tsan", name="ringbuf")],
    "W16": [run(POOL, name="pool"), run(POOL, "tsan", name="pool")],
    "W17": conc(), "W18": conc(), "W19": conc(), "W20": [run(PROTO, name="proto")] + conc(),
    "W21": [run(PROTO, name="proto"), run(TLS, name="tls")],
    "W22": [run(LIFE, name="life")],
    "W23": [run(LIFE, name="life")] + conc(),
    "W24": [run(CONF, name="conf")],
    "W25": [run(LIFE, name="life")],
    "W26": [run(LIFE, name="life")],
    "W27": [run(TLS, name="tls")],
    "W28": [run(HTTP, name="http")],
    "W29": [run(PLUG, name="plugin")],
    "W30": [run(TIMEO, name="timeout")],
    "W31": [run(TLSC, name="tlsconf")],
}
ASSUME = {
    "codec": ["the codec functions are called directly; how the server uses them is the subject of W03 to W07",
              "compiled by gcc with AddressSanitizer; the AVX-512 variant is run only where the processor has it"],
}
ASSUME["proto"] = ["the socket, epoll, thread and clock calls of the server are served by the simulated world in /verif/sim; one thread runs at a time and is switched at those calls only"]
ASSUME["http"] = ASSUME["proto"] + ["the answers are judged where the HTTP and WebSocket specifications and the README leave one answer; where they leave several, any of those is accepted"]
ASSUME["life"] = ASSUME["proto"] + ["time is that of the simulated clock; allocations of the TLS stand-in never fail"]
ASSUME["pool"] = ["the pthread functions are served by the simulated world in /verif/sim; threads are switched at their calls and between the steps of tasks"]
ASSUME["ringbuf"] = ["memory accesses take effect in program order, as compiled by clang -O1: reorderings by the processor are not explored", "scheduling points are the accesses that the search finds to be unordered by locks (all accesses that threads share in this lock-free code)"]
ASSUME["plugin"] = ASSUME["proto"] + ["plug-ins are those of the harness; loading them is served by the simulated world, which counts loads and unloads"]
ASSUME["timeout"] = ASSUME["proto"] + ["time is that of the simulated clock; a gap that equals the time-out exactly may be judged either way"]
ASSUME["tlsconf"] = ["the TLS library is replaced by a stand-in that records what each context is told and fails on demand; what the real library makes of these calls is not explored"]
ASSUME["tls"] = ASSUME["proto"] + ["the TLS library is replaced by a stand-in that follows the documented contract of SSL_read, SSL_write, SSL_do_handshake, SSL_shutdown and SSL_get_error without encrypting"]
ASSUME["deflate"] = ASSUME["proto"] + ["zlib itself is taken as it is (it is compiled without instrumentation; writes behind its buffers are noticed when they are freed)"]
ASSUME["conf"] = ["the files are composed from the documented settings; json.c and config.c load them from a scratch directory, main() runs up to the start of the server"]
ASSUME["conc"] = ASSUME["proto"] + ["up to four clients and three workers; the bound on preemptions (or delays) of each scenario is in harness/conc_bounds.h and in the name of the scenario in the evidence",
                                      "subprotocols are those delivered with the server and one of the harness, which follow the rule that a subprotocol guards its own data"]
TECH = {None: "exhaustive bounded enumeration of executions of the real code (stateless model checking in a simulated world)"}
LEVEL = {None: "Every choice of the stated bounded space (inputs, cuts, faults, schedules) is executed on the real code and judged by an independent model; nothing beyond the bounds is claimed."}
NA = {}
OFF = set()
