"""P31: behaviours of spec/Configuration.tla replayed into dlaf::initialize/finalize and the C interface, and the pools they set up."""
import vlib
from concurrent.futures import ThreadPoolExecutor

RUN = "---- MODULE ConfigRun ----\nEXTENDS Configuration\nKindC == (1 :> \"%s\" @@ 2 :> \"%s\")\n====\n"
CFG = "CONSTANTS\n Depth = %d\n V = 2\n WithMpi = %s\n Tolerant = %s\n Kind <- KindC\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Balanced Emit\nPROPERTIES Steady Independent\n"
CORE = ["init.cpp", "tune.cpp", "memory/memory_chunk.cpp", "c_api/init.cpp"]


def run(c):
    T = vlib.THOROUGH
    jobs = []
    pairs = [("cfg", "cfg"), ("cfg", "tune"), ("tune", "tune"), ("flag", "cfg"), ("flag", "tune"), ("dump", "dump"), ("dump", "tune"), ("idle", "cfg"), ("idle", "idle")]
    for i, (a, b) in enumerate(pairs):
        jobs.append(("%s-%s" % (a, b), a, b, CFG % (3 if T else 2, "FALSE", "FALSE"), (), ""))
        jobs.append(("%s-%s-long" % (a, b), a, b, CFG % (8, "TRUE", "FALSE"), ("-simulate", "num=%d" % (1500 if T else 40), "-depth", "10", "-seed", str(vlib.SEED + i)), ""))
    for i, (a, b) in enumerate((("cfg", "tune"), ("flag", "dump"), ("tune", "tune"))):
        jobs.append(("c-%s-%s" % (a, b), a, b, CFG % (7, "TRUE", "TRUE"), ("-simulate", "num=%d" % (1500 if T else 40), "-depth", "9", "-seed", str(vlib.SEED + 50 + i)), "t"))
    with ThreadPoolExecutor(8) as ex:
        exes = [ex.submit(c.compile_sim, "p31", ["p31_config.cpp"], CORE),
                ex.submit(c.compile_sim, "p31old", ["p31_config.cpp"], CORE, ["-DPIKA_VERSION_FULL=0x001E00"])]
        gpu = ex.submit(c.compile_sim, "p31gpu", ["p31_gpu.cpp"], CORE, ["-DDLAF_WITH_GPU", "-DDLAF_WITH_CUDA", "-I" + vlib.VERIF + "/shim/gpu"])
        fs = [ex.submit(c.tlc, "ConfigRun", cfg, None, {"ConfigRun": RUN % (a, b)}, 1, 900, args, tag="Cfg-" + t) for t, a, b, cfg, args, _ in jobs]
        outs = [f.result()[1] for f in fs]
        exes = [e.result() for e in exes]
        rs = []
        for i, ((t, _, _, _, _, tol), o) in enumerate(zip(jobs, outs)):
            f = c.dir + "/" + t
            k = c.emit_cases(o, f).get("C", 0)
            if k < 30:
                raise vlib.CheckError("too few behaviours for %s: %d" % (t, k))
            c.traces += k
            if i % 5 == 0:
                c.samples.append(open(f).readlines()[-2].strip()[:200])
            for j, e in enumerate(exes):
                if j and i % 2 and not T:
                    continue
                rs.append((t + ("-older-runtime" if j else ""), k, ex.submit(c.replay_driver, [e, f, str(vlib.SEED * 77 + i)] + ([tol] if tol else []), what=t, timeout=900)))
        rs.append(("pools", 0, ex.submit(c.replay_driver, [gpu.result(), str(vlib.SEED)], what="pools", timeout=300)))
        for t, k, r in rs:
            kv = r.result()
            c.cov[t] = dict(behaviours=k, comparisons=kv.get("comparisons", 0), option_pairs=kv.get("pairs", 0))
    c.assumptions = ["Boost.Program_options stands for its copy in pika", "the accelerator side of the initialisation runs against stand-ins of the pools only"]
