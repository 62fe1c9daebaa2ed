"""Shared machinery of the checks: building drivers from /repo's working tree, running TLC,
recording evidence and reporting violations.  Standard library only."""
import json, os, re, shutil, subprocess, sys, time, tempfile, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
NCPU = os.cpu_count() or 4

DEFS = ["-DDLAF_ASSERT_ENABLE", "-DDLAF_ASSERT_MODERATE_ENABLE", "-DDLAF_ASSERT_HEAVY_ENABLE",
        "-DDLAF_FUNCTION_NAME=__PRETTY_FUNCTION__", "-DDLAF_WITH_OPENMP"]
MPI_ENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
               OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
               OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_plm_rsh_agent="/bin/false",
               OMPI_MCA_btl="self,vader", OMPI_MCA_pml="ob1",
               OMPI_MCA_btl_vader_single_copy_mechanism="none")


class CheckError(Exception):
    """The machinery failed (not the property): exit code 2."""


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, what, detail=""):
        super().__init__(what)
        self.what, self.detail = what, detail


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        self.cov = {}
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.stop = False
        self.known = []
        self.notes = []
        self.level = "model_checking"

    # ---- building -----------------------------------------------------------------------------
    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def compile(self, out, sources, flags=(), libs=(), opt="-O1", std="-std=c++17"):
        """Compile and link `sources` (relative to harness/ or absolute) into `out` with the MPI C++ wrapper."""
        objs, procs = [], []
        for s in sources:
            src = s if os.path.isabs(s) else os.path.join(HARNESS, s)
            o = os.path.join(self.dir, out + "-" + hashlib.md5(src.encode()).hexdigest()[:8] + ".o")
            cmd = ["mpicxx", std, opt, "-g0", "-w", "-fopenmp"] + DEFS + list(flags) + \
                  ["-I" + os.path.join(REPO, "include"), "-I" + HARNESS, "-c", src, "-o", o]
            procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            objs.append(o)
        for cmd, p in procs:
            outp, _ = p.communicate()
            if p.returncode != 0:
                raise CheckError("compilation failed: %s\n%s" % (" ".join(cmd), outp[-6000:]))
        exe = os.path.join(self.dir, out)
        cmd = ["mpicxx", "-fopenmp", "-o", exe] + objs + list(libs)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("link failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
        return exe

    CORE = ["communication/communicator_impl.cpp", "communication/communicator.cpp", "communication/communicator_grid.cpp",
            "communication/datatypes.cpp", "matrix/distribution.cpp", "matrix/tile.cpp", "matrix/matrix_ref.cpp", "matrix.cpp",
            "matrix_mirror.cpp", "memory/memory_view.cpp", "memory/memory_chunk.cpp", "tune.cpp", "init.cpp",
            "blas/scal.cpp", "common/single_threaded_blas.cpp"]
    KERNELS = ["communication/kernels/%s.cpp" % k for k in ("all_reduce", "broadcast", "p2p", "reduce")]

    def compile_sim(self, out, sources, core=(), flags=(), libs=(), opt="-O1", types="dz", link=True):
        """Compile against the stand-ins of shim/: `sources` are harness files, `core` files of /repo/src.
        `types`: element types for which the library's kernels are instantiated (subset of "sdcz")."""
        shim = os.path.join(VERIF, "shim")
        srcs = [s if os.path.isabs(s) else os.path.join(HARNESS, s) for s in sources]
        srcs += [os.path.join(shim, "vrt.cpp"), os.path.join(shim, "vmpi.cpp")]
        srcs += [os.path.join(REPO, "src", s) for s in core]
        base = ["g++", "-std=c++17", opt, "-g0", "-w", "-fopenmp"] + DEFS + ["-DVSIM_TYPES_%s" % t for t in types] + list(flags) + \
               ["-I" + shim, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + HARNESS]
        objs, jobs = [], []
        for s in srcs:
            o = os.path.join(self.dir, out + "-" + hashlib.md5(s.encode()).hexdigest()[:8] + ".o")
            objs.append(o)
            jobs.append(base + ["-c", s, "-o", o])

        def one(cmd):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise CheckError("compilation failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
        jobs.sort(key=lambda j: (0 if HARNESS in j[-3] else 1, 0 if "kernels" in j[-3] else 1))
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, jobs))
        self.log("compiled %d files for %s" % (len(jobs), out))
        exe = os.path.join(self.dir, out)
        cmd = ["g++", "-fopenmp", "-o", exe] + objs + ["-llapackpp", "-lblaspp", "-llapack", "-lopenblas",
                                                         "-lboost_context", "-lboost_program_options"] + list(libs)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("link failed: %s\n%s" % (" ".join(cmd)[:300], p.stdout[-4000:]))
        return exe

    # ---- TLC ----------------------------------------------------------------------------------
    def tlc(self, module, cfg=None, consts=None, extra_tla=None, workers=1, timeout=600, args=(),
            env=None, expect_ok=True, tag=None, stdout_path=None):
        """Run TLC on spec/<module>.tla.  `cfg` is the text of the config.  `extra_tla` is a dict of
        additional modules written next to the copy of the specs.  Returns (rc, output, stats)."""
        tag = tag or module
        d = os.path.join(self.dir, "tlc-" + tag)
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, text in (extra_tla or {}).items():
            with open(os.path.join(d, name + ".tla"), "w") as fh:
                fh.write(text)
        cfgp = os.path.join(d, tag + ".cfg")
        with open(cfgp, "w") as fh:
            fh.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        e.setdefault("JAVA_TOOL_OPTIONS", "-Xmx6g -Xss64m -XX:+UseParallelGC")
        cmd = ["tlc", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", cfgp] + list(args) + [os.path.join(d, module + ".tla")]
        outp = stdout_path or os.path.join(d, "out.txt")
        with open(outp, "w") as fh:
            try:
                p = subprocess.run(cmd, cwd=d, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout, env=e)
            except subprocess.TimeoutExpired:
                raise CheckError("TLC timed out on %s after %ds" % (tag, timeout))
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        stats = {"generated": 0, "distinct": 0, "depth": 0}
        tail = ""
        with open(outp) as fh:
            for line in fh:
                if line.startswith("<<"):
                    continue
                tail = (tail + line)[-8000:]
                m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", line)
                if m:
                    stats["generated"] = int(m.group(1).replace(",", ""))
                    stats["distinct"] = int(m.group(2).replace(",", ""))
                m = re.search(r"The number of states generated: ([\d,]+)", line)
                if m:
                    stats["generated"] = int(m.group(1).replace(",", ""))
                m = re.search(r"depth of the complete state graph search is (\d+)", line)
                if m:
                    stats["depth"] = int(m.group(1))
        if expect_ok and p.returncode != 0:
            raise CheckError("TLC reported an error on %s (rc %d):\n%s" % (tag, p.returncode, tail))
        self.states += stats["distinct"]
        self.transitions += stats["generated"]
        self.log("TLC %s: rc=%d %s" % (tag, p.returncode, stats))
        return p.returncode, outp, stats

    @staticmethod
    def tuples(path, out=None):
        """Yield the tuples TLC printed (`<<"T", 1, <<2, 3>>, TRUE>>`) as flat lists of tokens."""
        tr = str.maketrans({"<": " ", ">": " ", ",": " ", '"': " ", "{": " ", "}": " "})
        buf = None
        with open(path) as fh:
            for line in fh:
                if buf is None and not line.startswith("<<"):
                    continue
                buf = line if buf is None else buf + line
                if buf.count("<<") > buf.count(">>"):
                    continue
                yield buf.translate(tr).replace("TRUE", "1").replace("FALSE", "0").split()
                buf = None

    def emit_cases(self, tlc_out, path, keep=None):
        """Write the printed tuples as whitespace separated lines into `path`; returns the count by kind."""
        kinds = {}
        with open(path, "w") as fh:
            for t in self.tuples(tlc_out):
                kinds[t[0]] = kinds.get(t[0], 0) + 1
                fh.write(" ".join(t) + "\n")
        return kinds

    # ---- running drivers ----------------------------------------------------------------------
    def run(self, cmd, timeout=300, env=None, mpi=0, stdin=None, cwd=None):
        e = dict(os.environ)
        e.update(MPI_ENV)
        e["OMP_NUM_THREADS"] = e.get("OMP_NUM_THREADS", "1")
        e["OPENBLAS_NUM_THREADS"] = "1"
        e["TMPDIR"] = "/tmp"
        e.update(env or {})
        if mpi:
            cmd = ["mpirun", "-q", "-n", str(mpi)] + list(cmd)
        self.in_time()
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=e,
                             stdin=subprocess.DEVNULL if stdin is None else stdin, cwd=cwd or self.dir, start_new_session=True)
        try:
            so, se = p.communicate(timeout=timeout)
            return p.returncode, so, se
        except subprocess.TimeoutExpired:
            # mpirun ends its ranks when asked politely; what is left of the session is ended afterwards
            p.terminate()
            try:
                so, se = p.communicate(timeout=5)
            except subprocess.TimeoutExpired:
                end_session(p.pid)
                try:
                    so, se = p.communicate(timeout=20)
                except subprocess.TimeoutExpired:
                    so, se = "", ""
            end_session(p.pid)
            return -999, so, se

    def in_time(self):
        """A check that has its answer does not go on until it is cut off without one."""
        if self.stop or (self.violations and time.time() - self.t0 > 420 and not THOROUGH):
            self.stop = True
            raise Decided()

    def violation(self, what, replay_obj):
        self.violations.append((what, replay_obj))

    def replay_driver(self, cmd, mpi=0, timeout=300, what="replay", retry=True, env=None):
        """Run a replay driver.  Protocol on stdout: lines 'MISMATCH ...' name a disagreement with the
        specification, the last line 'DONE key=value ...' carries counts.  A crash or a hang of the code
        under test before DONE is a disagreement too; it must repeat to count."""
        if not THOROUGH:
            timeout = min(timeout, 150)
        for attempt in (0, 1):
            rc, so, se = self.run(cmd, mpi=mpi, timeout=timeout, env=env)
            mism = [l for l in so.splitlines() if l.startswith("MISMATCH")]
            done = [l for l in so.splitlines() if l.startswith("DONE")]
            # (an MPI library that gives up exits with the error class, which may be 3 as well)
            if rc == 3 and re.search(r"bad (behaviour|call|program|token)|is not compiled in|cannot open|unknown (call|kernel)", se):
                raise CheckError("driver usage/protocol error: %s\n%s\n%s" % (cmd, so[-2000:], se[-2000:]))
            if mism or rc != 0 or not done:
                if attempt == 0 and retry:
                    self.log("%s: first run disagreed (rc=%s, %d mismatches); repeating" % (what, rc, len(mism)))
                    continue
                for m in mism[:50]:
                    self.violation("%s: %s" % (what, m), {"cmd": cmd, "mpi": mpi, "line": m})
                if not mism:
                    self.violation("%s: code under test %s" % (what, "hung" if rc == -999 else "crashed (rc=%s)" % rc),
                                   {"cmd": cmd, "mpi": mpi, "stdout": so[-3000:], "stderr": se[-3000:]})
                if rc == -999 and not THOROUGH:
                    self.stop = True
                    raise Decided()  # (the other runs would hang as well)
                return {}
            kv = {}
            for l in done:
                for tok in l.split()[1:]:
                    k, _, v = tok.partition("=")
                    try:
                        kv[k] = kv.get(k, 0) + int(v)
                    except ValueError:
                        kv[k] = v
            self.log("%s: %s" % (what, kv))
            return kv
        return {}

    # ---- finishing ----------------------------------------------------------------------------
    def finish(self):
        wall = time.time() - self.t0
        known = load_known(self.pid)
        fresh = []
        for what, rep in self.violations:
            hit = None
            for k in known:
                if re.search(k["match"], what):
                    hit = k
                    break
            if hit:
                if hit["id"] not in self.known:
                    self.known.append(hit["id"])
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, hit["what"]), flush=True)
            else:
                fresh.append((what, rep))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:8]}
        cov.update(self.cov)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        if fresh:
            rdir = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, self.pid + ".json")
            with open(rp, "w") as fh:
                json.dump([{"what": w, "replay": r} for w, r in fresh[:50]], fh, indent=1)
            for w, _ in fresh[:20]:
                print("  " + w[:400])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp), flush=True)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)
        else:
            print("kept", self.dir)
        return 1 if fresh else 0


class Decided(Exception):
    """Raised when the violations found so far are the answer and the rest of the check is left out."""


def end_session(sid):
    """End every process of the session this check started with a driver."""
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                if os.getsid(int(d)) == sid:
                    os.kill(int(d), 9)
            except OSError:
                pass


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        data = json.load(fh)
    return [k for k in data.get("findings", []) if k["property"] == pid]


def tla_set(items):
    return "{" + ", ".join(items) + "}"
