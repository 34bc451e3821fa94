#!/usr/bin/env python3
"""mkseed.py ID PROP FILE < spec ; helper that turns an edit of /repo into a planted bug folder.
spec (python): dict with edits=[(file, old, new)], demo='c++ source' or sh='shell body', needs=, breaks=, np=1, kind='complex'"""
import sys, os, subprocess, json
REPO = os.environ.get("VF_REPO", "/repo")
SH = r'''#!/bin/bash
# exit 0: behaves as specified; nonzero otherwise.  cwd: the repository, after its build
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl_base_warn_component_unused=0 OMP_NUM_THREADS=1
K=@KIND@
B=$repo/_build; [ $K = real ] && B=$repo/_build_real
D="-DHPGEM_USE_COMPLEX_PETSC"; [ $K = real ] && D="-DHPGEM_USE_PETSC"
P=/usr/lib/petscdir/petsc3.19; S=/usr/lib/slepcdir/slepc3.19
mpicxx -std=gnu++14 -O1 -w -DHPGEM_FORCE_ASSERTS -DHPGEM_LOGLEVEL=Log::DEFAULT -DHPGEM_USE_ANY_PETSC $D \
  -DHPGEM_USE_METIS -DHPGEM_USE_MPI -DHPGEM_USE_SLEPC -I"$repo/kernel" -I"$repo/applications/Preprocessor" -I"$repo/applications/Preprocessor/lib" -I"$repo/applications/DG-Max" \
  -I$P/x86_64-linux-gnu-$K/include -I$S/x86_64-linux-gnu-$K/include -I$P/include -I$S/include \
  "$here/demo.cpp" -o "$work/demo" @LIBS@ "$B/kernel/libHPGEM.a" "$B/kernel/libLogger.a" \
  -L$P/x86_64-linux-gnu-$K/lib -L$S/x86_64-linux-gnu-$K/lib -lslepc_$K -lpetsc_$K -llapack -lblas -ldl || exit 2
cd "$work"
timeout 200 @RUN@ "$work/demo" "$repo" "$work" > "$work/out" 2>&1
rc=$?
tail -5 "$work/out"
exit $rc
'''
ID, spec = sys.argv[1], eval(sys.stdin.read())
d = os.path.join("/verif/seeded", ID)
os.makedirs(d, exist_ok=True)
assert not subprocess.run(["git", "-C", REPO, "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout.strip(), "repo dirty"
try:
    for f, old, new, *nth in spec["edits"]:  # nth: which occurrence (from 0) when there are several
        p = os.path.join(REPO, f)
        t = open(p).read()
        assert t.count(old) == 1 or nth, (f, t.count(old), old)
        parts = t.split(old)
        k = nth[0] + 1 if nth else 1
        open(p, "w").write(old.join(parts[:k]) + new + old.join(parts[k:]))
    diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
finally:
    subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
open(os.path.join(d, "patch.diff"), "w").write(diff)
n = spec.get("np", 1)
sh = SH.replace("@KIND@", spec.get("kind", "complex")).replace("@LIBS@", spec.get("libs", "")).replace("@RUN@", "mpirun --oversubscribe -np %d" % n if n > 1 else "")
open(os.path.join(d, "demo.sh"), "w").write(spec.get("sh", sh))
os.chmod(os.path.join(d, "demo.sh"), 0o755)
if "demo" in spec:
    open(os.path.join(d, "demo.cpp"), "w").write(spec["demo"])
json.dump(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
print("wrote", d, len(diff))
