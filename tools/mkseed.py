"""mkseed.py FILE...: each FILE (python) defines id, prop, needs, breaks, edits=[(file, old, new)], demo (C++ text). Writes /verif/seeded/<id>/."""
import json, os, subprocess, sys, tempfile, shutil
SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
R=/repo/_build/root
g++ -std=c++14 -O1 -w -I$R/include -I/repo/include "$d/demo.cpp" -o "$W/demo" -L$R/lib -lPothos -lPocoFoundation -lpthread || exit 2
cd "$W" && export HOME="$W" LD_LIBRARY_PATH=$R/lib POTHOS_ROOT=$R && timeout 200 "$W/demo"
'''
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    d = "/verif/seeded/" + g["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="mkseed")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r", "HEAD"])
        for p, old, new in g["edits"]:
            q = os.path.join(w, "r", p)
            s = open(q).read()
            assert s.count(old) == 1, (g["id"], p, s.count(old))
            open(q, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True))
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w, ignore_errors=True)
    open(d + "/demo.sh", "w").write(g.get("sh", SH))
    if g.get("demo"):
        open(d + "/demo.cpp", "w").write(g["demo"])
    json.dump(dict(property=g["prop"], needs=g["needs"], what_it_breaks=g["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print("wrote", d)
