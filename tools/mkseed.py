#!/usr/bin/env python3
"""mkseed.py SPEC.py: create seeded/<id>/ from a description (dict SEED with id, property, edits, demo, srcs, mpi, needs, breaks)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")
DEFS = "-DDLAF_ASSERT_ENABLE -DDLAF_ASSERT_MODERATE_ENABLE -DDLAF_ASSERT_HEAVY_ENABLE -DDLAF_FUNCTION_NAME=__PRETTY_FUNCTION__ -DDLAF_WITH_OPENMP"
ENVS = ("OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 "
        "OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_plm_rsh_agent=/bin/false "
        "OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_btl_vader_single_copy_mechanism=none")


def make(s):
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(["git", "-C", R, "diff", "--quiet"]).returncode == 0, "dirty /repo"
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(R, f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    for name, text in s.get("files", {}).items():
        open(os.path.join(d, name), "w").write(text)
    if "demo_sh" in s:
        sh = s["demo_sh"]
    elif "sim" in s:
        # the demo brings its own copy of the stand-ins of shim/ (it finds nothing of /verif when it counts)
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"])
        subprocess.run(["tar", "czf", os.path.join(d, "shim.tgz"), "-C", V, "--sort=name", "--owner=0", "--group=0", "--mtime=2020-01-01", "shim"], check=True)
        units = {}
        for n, h, ns, m, types, b in s["sim"].get("eti", []):
            units[n + ".cpp"] = '#include <dlaf/%s>\nnamespace dlaf::%s {\n%s\n}\n' % (h, ns, "\n".join("%s(, %s)" % (m, ", ".join(b + [ty])) if m else "" for ty in types))
        for name, text in units.items():
            open(os.path.join(d, name), "w").write(text)
        sh = SIM % (" ".join(s.get("flags", [])), " ".join("-DVSIM_TYPES_" + t for t in s["sim"].get("types", "d")), DEFS,
                    " ".join(['"$d/demo.cpp"'] + ['"$d/%s"' % u for u in units]), " ".join("src/" + c for c in s["sim"].get("core", [])))
    else:
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"])
        srcs = " ".join(s.get("srcs", []))
        flags = " ".join(s.get("flags", []))
        run = '"$t/demo"' if not s.get("mpi") else 'mpirun -q -n %d "$t/demo"' % s["mpi"]
        sh = """#!/bin/bash
# run with cwd /repo: 0 if the property holds on the demonstrated input
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export %s
mpicxx -std=c++17 -O1 -w -fopenmp %s -Iinclude %s "$d/demo.cpp" %s -o "$t/demo" || exit 99
timeout 120 %s
""" % (ENVS, DEFS, flags, srcs, run)
    open(os.path.join(d, "demo.sh"), "w").write(sh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    print("made", d)


SIM = """#!/bin/bash
# run with cwd /repo: 0 if the property holds on the demonstrated input
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
tar xzf "$d/shim.tgz" -C "$t"
cc() { g++ -std=c++17 -O1 -g0 -w -fopenmp %s %s %s -I"$t/shim" -Iinclude -Isrc "$@"; }
export -f cc; export t
n=0
for f in %s %s "$t/shim/vrt.cpp" "$t/shim/vmpi.cpp"; do n=$((n+1)); echo "$n $f"; done |
  xargs -P 8 -L 1 bash -c 'cc -c "$1" -o "$t/$0.o"' || exit 99
g++ -fopenmp -o "$t/demo" "$t"/*.o -llapackpp -lblaspp -llapack -lopenblas -lboost_context -lboost_program_options || exit 99
timeout 200 "$t/demo"
"""


g = {}
exec(open(sys.argv[1]).read(), g)
for s in g["SEEDS"]:
    if len(sys.argv) < 3 or s["id"] in sys.argv[2:]:
        make(s)
