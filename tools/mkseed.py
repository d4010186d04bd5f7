"""mk(id, property, needs, breaks, edits, demo): write /verif/seeded/<id>/ from textual edits [(file, old, new)] against /repo's HEAD"""
import json, os, stat, subprocess, tempfile, shutil

DEMO = '''#!/bin/bash
# runs in /repo after the build: compiles demo.cpp against the built objects; exit 0 = behaves as specified
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
ar rcs "$T/libg.a" $(ls src/*.o | grep -v -e '/gandalf.o' -e '_wrap.o' -e '/Test') || exit 3
g++ -w -O0 -g -DGANDALF_DOUBLE_PRECISION -DGANDALF_GSL -DDEBUG1 -Isrc/Headers -I"$D" "$D/demo.cpp" "$T/libg.a" -lgsl -lgslcblas -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
'''


def mk(id, prop, needs, breaks, edits, demo):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        subprocess.run("git -C /repo archive HEAD src | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (t, t), shell=True, check=True)
        for f, old, new in edits:
            p = t + "/" + f
            s = open(p, newline="").read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w", newline="").write(s.replace(old, new))
        open(d + "/patch.diff", "wb").write(subprocess.run(["git", "-C", t, "diff"], capture_output=True).stdout)
    finally:
        shutil.rmtree(t)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print(id)
