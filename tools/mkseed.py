"""helper: mkseed(id, prop, [(file, old, new)], needs, breaks, demo_cpp, flags) writes /verif/seeded/<id>; the diff is taken in a scratch copy"""
import os, subprocess, json, shutil
REPO="/repo"
def mkseed(id, prop, edits, needs, breaks, demo, flags="", srcs="", libs="-lpthread", ns="", extra=(), inmost=False, kin=False):
    d="/verif/seeded/"+id
    os.makedirs(d, exist_ok=True)
    S="/tmp/mkseed_wt"
    shutil.rmtree(S, ignore_errors=True)
    subprocess.run(["git","clone","-q",REPO,S],check=True,env=dict(os.environ,GIT_LFS_SKIP_SMUDGE="1"))
    for f,old,new in edits:
        p=os.path.join(S,f); s=open(p).read()
        assert s.count(old)==1, (id,f,s.count(old))
        open(p,"w").write(s.replace(old,new))
    diff=subprocess.run(["git","-C",S,"diff"],stdout=subprocess.PIPE,text=True,check=True).stdout
    # the changed lines are lines of the original repository
    root=subprocess.run(["git","-C",S,"rev-list","--max-parents=0","HEAD"],stdout=subprocess.PIPE,text=True).stdout.split()[-1]
    open(d+"/patch.diff","w").write(diff)
    open(d+"/demo.cpp","w").write(demo.lstrip("\n"))
    if inmost:
        shutil.copy("/verif/stubs/inmost/inmost.h",d); shutil.copy("/verif/tools/seeds/demo_mesh.h",d)
        srcs+=" anifem++/inmost_interface/*.cpp anifem++/fem/*.cpp anifem++/interval/*.cpp"; flags+=' -I"$H"'
    prep=""
    if kin: # stand-ins of INMOST and SUNDIALS, whose headers are made from the one beside the demonstration
        shutil.copy("/verif/stubs/kinsol/inmost.h",d); shutil.copy("/verif/stubs/kinsol/sundials_sim.h",d); shutil.copy("/verif/tools/seeds/demo_ranks.h",d)
        prep="""mkdir -p "$T/kinsol" "$T/sundials"
for f in kinsol/kinsol.h sundials/sundials_nvector.h sundials/sundials_matrix.h sundials/sundials_linearsolver.h; do echo '#include "sundials_sim.h"' > "$T/$f"; done
"""
        srcs+=" anifem++/kinsol_interface/SUNNonlinearSolver.cpp"; flags+=' -I"$H" -I"$T" -DUSE_MPI -DSUNDIALS_VERSION_MAJOR=6'
    for e in extra: shutil.copy(e,d)
    open(d+"/demo.sh","w").write("""#!/bin/bash
# cwd: the repository. Exit 0: behaves as it should.
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
%sg++ -std=c++14 -O1 -w -I. %s "$H/demo.cpp" %s -o "$T/demo" %s || exit 2
timeout 120 "$T/demo"
""" % (prep, flags, srcs, libs))
    os.chmod(d+"/demo.sh",0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+"/meta.json","w"),indent=1)
    shutil.rmtree(S, ignore_errors=True)
